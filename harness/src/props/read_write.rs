//! P01-P05, P25: reading and writing of whole files.
use super::*;

pub static PROPS: [Prop; 6] = [
    Prop { id: "P01", rule: "a case is a generated file (1-6 root instances of random kinds plus everything they reference, random numbering, order, layout and spellings); every typed instance with at least one attribute present is non-trivial, distinct by kind, presence pattern and values",
        assumptions: &["Strings inside typed instances contain no apostrophe (known finding: such records are kept opaque)", "the record layouts in schema.rs describe what the library supports"],
        quick: 104_000, thorough: 900_000, case: p01, probes: &[p01_many, p01_lengths] },
    Prop { id: "P02", rule: "a case is a generated file that is read, edited through the API at random attributes and written; the text is read by an independent STEP reader; non-trivial: a written instance with at least one attribute present, distinct by kind and values",
        assumptions: &["the independent STEP reader in step.rs"], quick: 88_000, thorough: 800_000, case: p02, probes: &[p02_many, p02_lengths] },
    Prop { id: "P03", rule: "a case is a generated file with random header, mixed supported and unsupported records, random layout; non-trivial: file with at least three instances, distinct by first written text",
        assumptions: &[], quick: 60_000, thorough: 700_000, case: p03, probes: &[p03_many, p03_lengths] },
    Prop { id: "P04", rule: "a case is a generated file with at least one opaque record (unknown keyword, unsupported shape, hostile strings); non-trivial: each opaque record, distinct by text",
        assumptions: &[], quick: 44_000, thorough: 800_000, case: p04, probes: &[p04_every, p03_many] },
    Prop { id: "P05", rule: "a case is a generated file laid out twice (different blanks, comments and instance order); non-trivial: the two texts differ in layout, distinct by second text",
        assumptions: &["comments or blanks between an entity keyword and its parenthesis, or between the closing parenthesis and the semicolon, are not varied (known finding)"], quick: 66_000, thorough: 800_000, case: p05, probes: &[p05_probe, p05_many] },
    Prop { id: "P30", rule: "a case is a generated file in which one to three records of supported keywords are bent: values of another type, out of range, omitted, inherited, surplus, missing, swapped, in lists of another length, under another keyword; the text written must hold each record verbatim or with the same values; non-trivial: each bent record of an accepted file, distinct by text",
        assumptions: &["values are compared by the independent STEP reader: 1 and 1. are the same number, .T. and .TRUE. the same logical, type names are compared without case", "a dimension count other than 1, 2 or 3 is read as inherited (documented by a unit test of the library)"], quick: 300_000, thorough: 8_000_000, case: p30, probes: &[] },
];

fn p01(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts { budget: 6 + s.u(30), ..Default::default() };
    let g = graph(s, o);
    let st = any_style(s);
    let t = render_file(s, st, &plain_header(), &g);
    c.input = t.clone();
    let mut ifc = must_read(&t, "a well-formed file")?;
    c.eval(g.insts.len() as u64);
    for i in &g.insts {
        check_inst(&mut ifc, i)?;
        if i.ent.is_some() && i.vals.iter().any(|v| !matches!(v, Val::Omit | Val::Derived)) { c.non_trivial(&values_key(i)); }
    }
    c.sample(|| t.clone());
    Ok(())
}

fn p02(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts { budget: 6 + s.u(24), ..Default::default() };
    let mut g = graph(s, o);
    let st = any_style(s);
    let t = render_file(s, st, &plain_header(), &g);
    c.input = t.clone();
    let mut ifc = must_read(&t, "a well-formed file")?;
    // API edits
    let mut edits = vec![];
    for i in g.insts.iter_mut() {
        if i.ent.is_none() { continue; }
        if s.bool() { let n = 1 + s.u(3); for _ in 0..n { if let Some(d) = crate::edits::edit(s, &mut ifc, i, true) { edits.push(format!("#{} {d}", i.id)); } } }
    }
    if !edits.is_empty() { c.label("edited"); }
    c.input = format!("{t}\n--- edits: {}", edits.join("; "));
    let w = write(&ifc)?;
    c.input = format!("{}\n--- written:\n{w}", c.input);
    let doc = parse_doc_lenient(&w)?;
    for r in &doc.recs { if r.kw.is_empty() { let op = g.get(r.id).map(|i| i.ent.is_none()).unwrap_or(false); ensure!(op, "record #{} is not valid STEP: {:?}", r.id, r.raw); } }
    check_doc(&doc, &g.insts)?;
    let hk: Vec<&str> = doc.header.iter().map(|h| h.0.as_str()).collect();
    ensure!(hk == ["FILE_DESCRIPTION", "FILE_NAME", "FILE_SCHEMA"], "header entities are {hk:?}");
    c.eval(g.insts.len() as u64);
    for i in &g.insts { if i.ent.is_some() && i.vals.iter().any(|v| !matches!(v, Val::Omit | Val::Derived)) { c.non_trivial(&values_key(i)); } }
    c.sample(|| w.clone());
    Ok(())
}

fn p03(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts { budget: 6 + s.u(30), ..Default::default() };
    let g = graph(s, o);
    let st = any_style(s);
    let h = header(s);
    let t = render_file(s, st, &h, &g);
    c.input = t.clone();
    let mut a = must_read(&t, "a well-formed file")?;
    let w1 = write(&a)?;
    c.input = format!("{t}\n--- written:\n{w1}");
    let mut b = must_read(&w1, "the written file")?;
    let w2 = write(&b)?;
    ensure!(a.header == b.header, "header changed: {:?} became {:?}", a.header, b.header);
    ensure!(a.footer == b.footer, "footer changed");
    for i in &g.insts {
        let id = i.id as usize;
        ensure!(b.data.contains(&Id(id)), "#{id} is lost when the written file is read again");
        match i.ent {
            Some(e) => {
                let e = &ents()[e];
                let (x, y) = ((e.proj)(&mut a, id), (e.proj)(&mut b, id));
                match (x, y) {
                    (Some(mut x), Some(mut y)) => { normalize(&e.fields, &mut x); normalize(&e.fields, &mut y); diff(e, i.id, &x, &y).map_err(|m| format!("after read-write-read {m}"))?; }
                    (x, _) => return Err(format!("#{id} ({}) is {} when read first and {} when read again", e.name, if x.is_some() { e.name } else { kind_of(&mut a, id) }, kind_of(&mut b, id))),
                }
            }
            None => { ensure!(kind_of(&mut b, id) == "Dummy", "opaque #{id} reads back as {}", kind_of(&mut b, id)); check_inst(&mut b, i)?; }
        }
    }
    let ids = parse_doc_lenient(&w2)?.recs.len();
    ensure!(ids == g.insts.len(), "{ids} instances after two round trips, {} at first", g.insts.len());
    ensure!(w1 == w2, "second writing differs from the first:\n{w2}");
    c.eval(1);
    if g.insts.len() >= 3 { c.non_trivial(w1.as_str()); }
    if g.insts.iter().any(|i| i.ent.is_none()) { c.label("with opaque records"); }
    c.sample(|| t.clone());
    Ok(())
}

/// A supported record of the graph turned into one of another keyword or shape.
fn lookalike(s: &mut Src, g: &Graph) -> Option<String> {
    let c: Vec<&Inst> = g.insts.iter().filter(|i| i.ent.is_some()).collect();
    if c.is_empty() { return None; }
    let i = *s.pick(&c); let e = &ents()[i.ent.unwrap()];
    let kw = if i.alt { e.alt_kw.unwrap() } else { e.kw };
    let mut args: Vec<String> = e.fields.iter().zip(&i.vals).map(|(f, v)| render_val(s, PLAIN, &f.k, v)).collect();
    let name = match s.weighted(&[5, 2, 1, 2]) {
        0 => match s.u(12) {
            0..=7 => format!("{kw}{}", ["ELEMENTEDCASE", "STANDARDCASE", "TYPE", "STYLE", "2D", "3D", "WITHVOIDS", "SET"][s.u(8)]),
            8 => kw[..kw.len() - 1].to_string(),
            9 => format!("IFC{kw}"),
            10 => kw[3..].to_string(),
            _ => { let k = 1 + s.u(kw.len() - 1); format!("{}_{}", &kw[..k], &kw[k..]) }
        },
        1 => { args.push(["$", "*", "'x'", "#1", ".T.", "()", "0.5"][s.u(7)].into()); kw.to_string() }
        2 => { args.pop(); kw.to_string() }
        _ => {
            let k = s.u(args.len());
            args[k] = match (&e.fields[k].k, &i.vals[k]) {
                (K::Str | K::Guid | K::SEn(_), _) => ["4711", "IFCLABEL('x')", "('a')", ".A.", "#1"][s.u(5)].into(),
                (K::En(_) | K::Bool, _) => [".XNOSUCHLITERAL.", "'T'", ".T", "#1", "1"][s.u(5)].into(),
                (K::Real | K::Int | K::Int32 | K::Ts, _) => ["'1'", ".A.", "IFCREAL(1.)", "(1.)", "#1"][s.u(5)].into(),
                (K::Ref(_) | K::Weak(_), _) => ["'x'", "1", ".A.", "(#1)", "IFCLABEL(#1)"][s.u(5)].into(),
                (K::L(_) | K::V2 | K::V3, _) => ["#1", "'x'", "1", ".A.", "('x',1.,.A.)"][s.u(5)].into(),
                _ => return None,
            };
            kw.to_string()
        }
    };
    // what results must not be a supported record again
    if args.len() == e.fields.len() && ents().iter().any(|x| x.kw == name || x.alt_kw == Some(name.as_str())) && name != kw { return None; }
    if args.len() != e.fields.len() && ents().iter().any(|x| x.kw == name && x.fields.len() == args.len()) { return None; }
    Some(format!("{name}({});", args.join(",")))
}

/// Entities of the IFC schemas (and a few invented names) none of which the library supports.
const OTHER: &[&str] = &["IFCACTIONREQUEST", "IFCACTOR", "IFCACTUATOR", "IFCACTUATORTYPE", "IFCADVANCEDBREP", "IFCADVANCEDFACE", "IFCAIRTERMINAL", "IFCAIRTERMINALTYPE", "IFCALARM", "IFCALIGNMENT", "IFCANNOTATION", "IFCANNOTATIONFILLAREA", "IFCAPPLIEDVALUE", "IFCAPPROVAL", "IFCARBITRARYOPENPROFILEDEF", "IFCARBITRARYPROFILEDEFWITHVOIDS", "IFCASSET", "IFCASYMMETRICISHAPEPROFILEDEF", "IFCAXIS1PLACEMENT", "IFCAXIS2PLACEMENTLINEAR", "IFCBEAM", "IFCBEAMSTANDARDCASE", "IFCBEAMTYPE", "IFCBLOCK", "IFCBOILER", "IFCBOOLEANCLIPPINGRESULT", "IFCBOOLEANRESULT", "IFCBOUNDINGBOX", "IFCBRIDGE", "IFCBRIDGEPART", "IFCBSPLINECURVEWITHKNOTS", "IFCBUILDINGELEMENTPART", "IFCBUILDINGELEMENTPARTTYPE", "IFCBUILDINGELEMENTPROXY", "IFCBUILDINGELEMENTPROXYTYPE", "IFCBUILDINGSYSTEM", "IFCBUILTELEMENT", "IFCBUILTELEMENTTYPE", "IFCBUILTSYSTEM", "IFCCARTESIANPOINTLIST", "IFCCARTESIANTRANSFORMATIONOPERATOR2D", "IFCCARTESIANTRANSFORMATIONOPERATOR2DNONUNIFORM", "IFCCENTERLINEPROFILEDEF", "IFCCHIMNEY", "IFCCIRCLE", "IFCCIRCLEHOLLOWPROFILEDEF", "IFCCIRCLEPROFILEDEF", "IFCCLASSIFICATION", "IFCCLASSIFICATIONREFERENCE", "IFCCLOSEDSHELL", "IFCCOLOURRGB", "IFCCOLUMN", "IFCCOLUMNSTANDARDCASE", "IFCCOLUMNTYPE", "IFCCOMPLEXPROPERTY", "IFCCOMPOSITECURVE", "IFCCOMPOSITECURVESEGMENT", "IFCCOMPOSITEPROFILEDEF", "IFCCONNECTEDFACESET", "IFCCONSTRAINT", "IFCCONTEXTDEPENDENTUNIT", "IFCCONVERSIONBASEDUNITWITHOFFSET", "IFCCOORDINATEOPERATION", "IFCCOORDINATEREFERENCESYSTEM", "IFCCOURSE", "IFCCOVERING", "IFCCOVERINGTYPE", "IFCCSGSOLID", "IFCCURTAINWALL", "IFCCURTAINWALLTYPE", "IFCCURVEBOUNDEDPLANE", "IFCDATE", "IFCDERIVEDPROFILEDEF", "IFCDERIVEDUNITELEMENT", "IFCDISCRETEACCESSORY", "IFCDISTRIBUTIONELEMENT", "IFCDISTRIBUTIONPORT", "IFCDOCUMENTINFORMATION", "IFCDOORLININGPROPERTIES", "IFCDOORPANELPROPERTIES", "IFCDOORSTYLE", "IFCDRAUGHTINGPREDEFINEDCOLOUR", "IFCEDGE", "IFCEDGELOOP", "IFCELEMENTASSEMBLY", "IFCELEMENTQUANTITY", "IFCELLIPSE", "IFCEXTERNALREFERENCE", "IFCEXTRUDEDAREASOLIDTAPERED", "IFCFACE", "IFCFACEBASEDSURFACEMODEL", "IFCFACEBOUND", "IFCFACEOUTERBOUND", "IFCFACETEDBREP", "IFCFACETEDBREPWITHVOIDS", "IFCFACILITY", "IFCFACILITYPART", "IFCFASTENER", "IFCFIXEDREFERENCESWEPTAREASOLID", "IFCFOOTING", "IFCFURNISHINGELEMENT", "IFCFURNITURE", "IFCGEOGRAPHICELEMENT", "IFCGEOMETRICCURVESET", "IFCGEOMETRICSET", "IFCGRID", "IFCGRIDAXIS", "IFCGROUP", "IFCHALFSPACESOLID", "IFCISHAPEPROFILEDEF", "IFCINDEXEDPOLYGONALFACE", "IFCINVENTORY", "IFCLSHAPEPROFILEDEF", "IFCLIBRARYINFORMATION", "IFCLINE", "IFCLINEARPLACEMENT", "IFCGRIDPLACEMENT", "IFCOBJECTPLACEMENT", "IFCMAPCONVERSION", "IFCMATERIALDEFINITION", "IFCMATERIALDEFINITIONREPRESENTATION", "IFCMATERIALLAYERWITHOFFSETS", "IFCMATERIALLIST", "IFCMATERIALPROFILE", "IFCMATERIALPROFILESET", "IFCMATERIALPROFILESETUSAGE", "IFCMATERIALPROPERTIES", "IFCMATERIALUSAGEDEFINITION", "IFCMEASUREWITHUNIT", "IFCMECHANICALFASTENER", "IFCMEMBER", "IFCMEMBERTYPE", "IFCMONETARYUNIT", "IFCNAMEDUNIT", "IFCOBJECT", "IFCOPENINGSTANDARDCASE", "IFCOPENSHELL", "IFCORGANIZATIONRELATIONSHIP", "IFCORIENTEDEDGE", "IFCOWNERHISTORYX", "IFCPHYSICALQUANTITY", "IFCPILE", "IFCPLANE", "IFCPLATE", "IFCPLATESTANDARDCASE", "IFCPLATETYPE", "IFCPOINT", "IFCPOLYGONALFACESET", "IFCPOLYGONALBOUNDEDHALFSPACE", "IFCPOLYLOOP", "IFCPRESENTATIONLAYERASSIGNMENT", "IFCPRESENTATIONSTYLEASSIGNMENT", "IFCPRODUCTREPRESENTATION", "IFCPROFILEDEF", "IFCPROFILEPROPERTIES", "IFCPROJECTEDCRS", "IFCPROJECTLIBRARY", "IFCPROJECTORDER", "IFCPROPERTYBOUNDEDVALUE", "IFCPROPERTYENUMERATEDVALUE", "IFCPROPERTYLISTVALUE", "IFCPROPERTYREFERENCEVALUE", "IFCPROPERTYSETTEMPLATE", "IFCPROPERTYTABLEVALUE", "IFCPROXY", "IFCQUANTITYAREA", "IFCQUANTITYCOUNT", "IFCQUANTITYLENGTH", "IFCQUANTITYVOLUME", "IFCRAILING", "IFCRAILINGTYPE", "IFCRAMP", "IFCRAMPFLIGHT", "IFCRECTANGLEHOLLOWPROFILEDEF", "IFCREFERENTDRAFT", "IFCREINFORCINGBAR", "IFCRELASSIGNSTOGROUP", "IFCRELASSOCIATES", "IFCRELASSOCIATESCLASSIFICATION", "IFCRELASSOCIATESDOCUMENT", "IFCRELCONNECTSELEMENTS", "IFCRELCONNECTSPATHELEMENTS", "IFCRELCOVERSBLDGELEMENTS", "IFCRELDECLARES", "IFCRELDEFINESBYOBJECT", "IFCRELDEFINESBYTEMPLATE", "IFCRELINTERFERESELEMENTS", "IFCRELNESTS", "IFCRELPROJECTSELEMENT", "IFCRELREFERENCEDINSPATIALSTRUCTURE", "IFCRELSERVICESBUILDINGS", "IFCRELSPACEBOUNDARY", "IFCRELDECOMPOSES", "IFCREPRESENTATION", "IFCREPRESENTATIONCONTEXT", "IFCREVOLVEDAREASOLID", "IFCRIGHTCIRCULARCYLINDER", "IFCROAD", "IFCROUNDEDRECTANGLEPROFILEDEF", "IFCSECTIONEDSPINE", "IFCSENSOR", "IFCSHAPEASPECT", "IFCSHAPEMODEL", "IFCSHELLBASEDSURFACEMODEL", "IFCSIMPLEPROPERTY", "IFCSLABELEMENTEDCASE", "IFCSPATIALZONE", "IFCSTAIR", "IFCSTAIRFLIGHT", "IFCSTYLEDITEM", "IFCSTYLEDREPRESENTATION", "IFCSURFACESTYLE", "IFCSURFACESTYLERENDERING", "IFCSWEPTDISKSOLID", "IFCSYSTEM", "IFCTASK", "IFCTOPOLOGYREPRESENTATION", "IFCTRANSPORTELEMENT", "IFCTRIANGULATEDFACESET", "IFCTRIMMEDCURVE", "IFCTYPEOBJECT", "IFCTYPEPRODUCT", "IFCUNITARYEQUIPMENT", "IFCVECTOR", "IFCVERTEX", "IFCVERTEXPOINT", "IFCVIRTUALELEMENT", "IFCVOIDINGFEATURE", "IFCWALLELEMENTEDCASE", "IFCWINDOWLININGPROPERTIES", "IFCWINDOWPANELPROPERTIES", "IFCWINDOWSTYLE", "IFCZONE", "IFCZSHAPEPROFILEDEF"];
/// Every other keyword with the attributes of every supported kind stays an opaque record with unchanged text.
fn p04_every(c: &mut Ctx) -> Result<Vec<String>, String> {
    let taken: std::collections::HashSet<&str> = ents().iter().flat_map(|e| [Some(e.kw), e.alt_kw]).flatten().collect();
    for (k, e) in ents().iter().enumerate() {
        for seed in 0..3u64 {
            let mut s = Src::random(hash_of(&("p04", e.name, seed)));
            let (mut g, id) = one_of_kind(&mut s, e.name, seed == 0);
            let rec = render_record(&mut s, PLAIN, g.get(id).unwrap());
            let args = rec[rec.find('(').unwrap()..].to_string();
            let mut names: Vec<String> = OTHER.iter().map(|x| x.to_string()).collect();
            for suffix in ["ELEMENTEDCASE", "STANDARDCASE", "TYPE", "STYLE", "2D", "3D", "WITHVOIDS", "SET", "X", "_"] { names.push(format!("{}{suffix}", e.kw)); }
            for (i, x) in ents().iter().enumerate() { if i != k { names.push(format!("{}STANDARDCASE", x.kw)); names.push(x.kw[..x.kw.len() - 1].into()); } }
            names.push(e.kw.to_lowercase()); names.push(e.kw[3..].to_string());
            names.retain(|x| !taken.contains(x.as_str()));
            let mut n = g.max_id();
            for x in names { n += 1; g.insts.push(Inst { id: n, ent: None, vals: vec![], raw: format!("{x}{args}"), alt: false }); c.eval(1); c.non_trivial(&(x, e.name, seed)); }
            let t = render_file(&mut s, PLAIN, &plain_header(), &g);
            c.input = t.clone();
            let mut ifc = must_read(&t, "a file with unsupported records")?;
            for i in &g.insts { check_inst(&mut ifc, i)?; }
            check_doc(&parse_doc_lenient(&write(&ifc)?)?, &g.insts)?;
        }
    }
    Ok(vec![])
}

fn p04(s: &mut Src, c: &mut Ctx) -> Res {
    // sometimes the supported records themselves refer to records of unsupported kinds
    let opaque = s.chance(2, 5);
    let o = GenOpts { budget: 4 + s.u(12), opaque, n_roots: (1, 4), ..Default::default() };
    let mut g = graph(s, o);
    let base: std::collections::HashSet<u64> = g.insts.iter().map(|i| i.id).collect();
    if opaque && g.insts.iter().any(|i| i.ent.is_none()) { c.label("referenced by supported records"); }
    // add opaque records with references to anything, at random places
    let n = 1 + s.u(5);
    let mut ids: Vec<u64> = g.insts.iter().map(|i| i.id).collect();
    for _ in 0..n {
        let raw = match if s.chance(1, 3) { lookalike(s, &g) } else { None } { Some(r) => { c.label("almost a supported record"); r } None => opaque_record(s, ids.len(), true) };
        let id = loop { let x = match s.u(3) { 0 => g.max_id() + 1, 1 => s.below(200), _ => s.below(1 << 40) }; if g.get(x).is_none() { break x; } if g.get(g.max_id() + 1).is_none() { break g.max_id() + 1; } };
        let mut r2 = raw.clone();
        for (k, v) in ids.iter().enumerate() { r2 = r2.replace(&format!("#@{k}@"), &format!("#{v}")); }
        let at = s.u(g.insts.len() + 1);
        g.insts.insert(at, Inst { id, ent: None, vals: vec![], raw: r2, alt: false });
        ids.push(id);
    }
    let st = any_style(s);
    let t = render_file(s, st, &plain_header(), &g);
    c.input = t.clone();
    let mut ifc = must_read(&t, "a file with unsupported records")?;
    for i in &g.insts { check_inst(&mut ifc, i)?; }
    let w = write(&ifc)?;
    c.input = format!("{t}\n--- written:\n{w}");
    check_doc(&parse_doc_lenient(&w)?, &g.insts)?;
    // neighbours: the same file without the opaque records gives the same lines
    let g2 = Graph { insts: g.insts.iter().filter(|i| base.contains(&i.id)).cloned().collect() };
    let t2 = render_file(s, PLAIN, &plain_header(), &g2);
    let w2 = write(&must_read(&t2, "the file without the added opaque records")?)?;
    let ls: std::collections::HashSet<&str> = split_lines(&w).into_iter().collect();
    for l in split_lines(&w2) { ensure!(ls.contains(l), "line {l:?} is written differently when opaque records are present"); }
    c.eval(n as u64);
    for i in &g.insts { if i.ent.is_none() { c.non_trivial(i.raw.as_str()); } }
    c.sample(|| t.clone());
    Ok(())
}

fn p05(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts { budget: 4 + s.u(24), n_roots: (1, 5), ..Default::default() };
    let mut g = graph(s, o);
    let a = render_file(s, PLAIN, &plain_header(), &g);
    let wa = write(&must_read(&a, "the plainly laid out file")?)?;
    if s.chance(2, 3) { s.shuffle(&mut g.insts); }
    let b = render_file(s, Style { noise: 2, forms: false }, &plain_header(), &g);
    c.input = b.clone();
    let mut ib = must_read(&b, "the re-laid-out file")?;
    for i in &g.insts { check_inst(&mut ib, i)?; }
    let wb = write(&ib)?;
    if wa != wb {
        let d = wa.lines().zip(wb.lines()).find(|(x, y)| x != y);
        return Err(format!("layout or order changed the meaning: {d:?}"));
    }
    c.eval(1);
    if a != b { c.non_trivial(b.as_str()); }
    c.sample(|| b.clone());
    Ok(())
}

/// Known limitation: layout directly around the parenthesis/semicolon of a record makes it opaque.
fn p05_probe(c: &mut Ctx) -> Result<Vec<String>, String> {
    let mut out = vec![];
    for (key, what, rec) in [("blank-before-parenthesis", "blank between keyword and parenthesis", "IFCMATERIAL ('a',$,$);"), ("blank-before-semicolon", "blank between parenthesis and semicolon", "IFCMATERIAL('a',$,$) ;")] {
        c.input = rec.to_string(); c.eval(1);
        let t = file_with(rec);
        let ifc = must_read(&t, what)?;
        if let Some(m) = get::<Material>(&ifc, 1) { ensure!(m.to_string() == "IFCMATERIAL('a',$,$);", "{what}: read as {m}"); continue; }
        let d = get::<Dummy>(&ifc, 1).ok_or(format!("{what}: neither a material nor an opaque record"))?.to_string();
        ensure!(d.replace(' ', "") == "IFCMATERIAL('a',$,$);", "{what}: text changed to {d:?}");
        ensure!(known("P05", key), "{what}: the record `{rec}` is not read as its kind but kept as an opaque record");
        out.push(format!("{what}: the record `{rec}` is not read as its kind but kept as an opaque record"));
    }
    Ok(out)
}
/// the lines of a text, where line breaks inside strings and comments don't count
pub fn split_lines(t: &str) -> Vec<&str> {
    let b = t.as_bytes(); let (mut i, mut at, mut out) = (0, 0, vec![]);
    while i < b.len() {
        match b[i] {
            b'\'' => { i += 1; while i < b.len() && b[i] != b'\'' { i += 1; } }
            b'/' if b.get(i + 1) == Some(&b'*') => { i += 2; while i < b.len() && !b[i..].starts_with(b"*/") { i += 1; } i += 1; }
            b'\n' => { out.push(&t[at..i]); at = i + 1; }
            _ => {}
        }
        i += 1;
    }
    if at < t.len() || out.is_empty() { out.push(&t[at..]); }
    out
}
/// the line of a written file that holds the given instance
pub fn line_of<'a>(t: &'a str, id: u64) -> &'a str {
    let d = t.find("DATA;\n").map(|i| i + 6).unwrap_or(0);
    let (a, b) = (format!("#{id}="), format!("#{id} "));
    split_lines(&t[d..]).into_iter().find(|l| l.starts_with(&a) || l.starts_with(&b)).unwrap_or("")
}
pub fn file_with(recs: &str) -> String {
    let mut s = Src::replay(&[]);
    let h = render_header(&mut s, PLAIN, &plain_header());
    let body: String = split_lines(recs).into_iter().enumerate().map(|(i, r)| if r.starts_with('#') { format!("{r}\n") } else { format!("#{}= {r}\n", i + 1) }).collect();
    format!("{h}DATA;\n{body}ENDSEC;\nEND-ISO-10303-21;\n")
}

/// A file of at least n instances: many random graphs side by side.
pub fn many_instances(n: usize, seed: u64) -> Graph {
    fn shift(v: &mut Val, by: u64) { match v { Val::Ref(r) => *r += by, Val::List(l) | Val::Typed(_, l) => for x in l { shift(x, by) }, _ => {} } }
    let mut out = Graph { insts: vec![] };
    let mut k = 0;
    while out.insts.len() < n {
        let mut s = Src::random(hash_of(&("many", seed, k))); k += 1;
        let o = GenOpts { budget: 30, n_roots: (1, 6), plain_ids: true, ..Default::default() };
        let g = graph(&mut s, o);
        let by = out.insts.len() as u64;
        for mut i in g.insts { i.id += by; for v in &mut i.vals { shift(v, by) } out.insts.push(i); }
    }
    out
}
const MANY: usize = 70_000;
fn many_read(c: &mut Ctx) -> Result<(Graph, String, IFC), String> {
    let g = many_instances(MANY, 1);
    let t = render_file(&mut Src::replay(&[]), PLAIN, &plain_header(), &g);
    c.input = format!("a file of {} instances:\n{}", g.insts.len(), short(&t));
    let i = must_read(&t, "a well-formed file")?;
    c.eval(1); c.non_trivial(&("many", g.insts.len()));
    Ok((g, t, i))
}
fn p01_many(c: &mut Ctx) -> Result<Vec<String>, String> {
    let (g, _, mut ifc) = many_read(c)?;
    for i in &g.insts { check_inst(&mut ifc, i)?; }
    Ok(vec![])
}
fn p02_many(c: &mut Ctx) -> Result<Vec<String>, String> {
    let (g, _, ifc) = many_read(c)?;
    check_doc(&parse_doc_lenient(&write(&ifc)?)?, &g.insts)?;
    Ok(vec![])
}
fn p03_many(c: &mut Ctx) -> Result<Vec<String>, String> {
    let (g, _, a) = many_read(c)?;
    let w = write(&a)?;
    let mut b = must_read(&w, "the written file")?;
    for i in &g.insts { check_inst(&mut b, i).map_err(|m| format!("written and read again: {m}"))?; }
    ensure!(write(&b)? == w, "second writing of a file of {} instances differs from the first", g.insts.len());
    Ok(vec![])
}
pub const SIZES: [usize; 38] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 1000];
/// Every list attribute of every kind in many lengths, three of them in every length up to 300 and some beyond.
pub fn lengths_graph() -> Graph {
    let mut s = Src::random(hash_of("lengths"));
    let o = GenOpts { budget: 0, plain_ids: true, opaque: false, dummy_targets: false, big: false, ..Default::default() };
    let mut g = Gen::new(&mut s, o);
    for (k, e) in ents().iter().enumerate() {
        for (n, f) in e.fields.iter().enumerate() {
            let K::L(inner) = &f.k else { continue };
            let all = matches!((e.name, f.name), ("Person", "middle_names") | ("PolyLine", "points") | ("PointList3D", _) | ("PropertySet", "properties") | ("RelAggregates", _));
            let mut sizes: Vec<usize> = SIZES.to_vec();
            if all { sizes = (0..=300).chain([499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 5000]).collect(); }
            for m in sizes {
                let i = g.add(k, 0);
                let l = (0..m).map(|_| g.val(inner, 0)).collect();
                g.g[i].vals[n] = Val::List(l);
            }
        }
    }
    let mut out = g.finish();
    out.insts.sort_by_key(|i| i.id);
    out
}
/// Texts of every character, every pair of printable ASCII characters and every triple of punctuation, without apostrophes and escape sequences.
pub fn odd_texts() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let chars: Vec<char> = (0..0x11_0000u32).filter(|c| *c < 0x1_0000 || c % 89 == 7 || c % 0x1_0000 > 0xfffd).filter_map(char::from_u32).collect();
    for c in chars.iter().filter(|c| (**c as u32) < 0x3000 || **c as u32 % 61 == 5) { v.push(c.to_string()); }
    for b in chars.chunks(16) { v.push(b.iter().collect()); }
    let p: Vec<char> = (' '..='~').collect();
    for a in &p { for b in &p { v.push(format!("{a}{b}")); v.push(format!("x{a}{b}y")); } }
    let q: Vec<char> = p.iter().copied().filter(|c| !c.is_ascii_alphanumeric()).chain(['a', '1']).collect();
    for a in &q { for b in &q { for d in &q { v.push(format!("{a}{b}{d}")); } } }
    for n in (0..=600).chain([999, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 8192, 65_535, 65_536, 65_537]) {
        v.push("x".repeat(n)); v.push("é".repeat(n)); if n < 1030 { v.push("ü".repeat(n)); v.push("😀a".repeat(n / 2)); v.push(format!("{}ß", "y".repeat(n))); v.push(format!("Ä{}", " z".repeat(n))); }
    }
    v.into_iter().filter(|t| !t.contains('\'') && strip_escapes(t) == *t).collect()
}
/// The texts as members of lists and on their own.
pub fn texts_graph() -> Graph {
    let mut out = Graph { insts: vec![] };
    let (per, mat) = (ent_ix("Person"), ent_ix("Site"));
    let texts = odd_texts();
    let mut s = Src::replay(&[]);
    let blank = |k: usize, s: &mut Src| { let mut g = Gen::new(s, GenOpts { budget: 0, opaque: false, alt: false, dummy_targets: false, plain_ids: true, ..Default::default() }); ents()[k].fields.iter().map(|f| if f.opt { Val::Omit } else { g.val(&f.k, 0) }).collect::<Vec<_>>() };
    let (pv, mv) = (blank(per, &mut s), blank(mat, &mut s));
    for (n, b) in texts.chunks(20).enumerate() {
        let mut vals = pv.clone();
        vals[3] = Val::List(b.iter().map(|t| Val::Str(t.clone())).collect());
        out.insts.push(Inst { id: 2 * n as u64 + 1, ent: Some(per), vals, raw: String::new(), alt: false });
        let mut vals = mv.clone();
        for (i, f) in ents()[mat].fields.iter().enumerate() { if f.k == K::Str { vals[i] = Val::Str(b[(i * 7 + n) % b.len()].clone()); } }
        out.insts.push(Inst { id: 2 * n as u64 + 2, ent: Some(mat), vals, raw: String::new(), alt: false });
    }
    out
}
fn lengths_read(c: &mut Ctx) -> Result<(Graph, IFC), String> {
    let g = lengths_graph();
    let t = render_file(&mut Src::replay(&[]), PLAIN, &plain_header(), &g);
    c.input = format!("a file of lists of many lengths:\n{}", short(&t));
    let i = must_read(&t, "a well-formed file")?;
    c.eval(g.insts.len() as u64); for i in &g.insts { c.non_trivial(&("lengths", i.id)); }
    Ok((g, i))
}
fn p01_lengths(c: &mut Ctx) -> Result<Vec<String>, String> {
    let (g, mut ifc) = lengths_read(c)?;
    for i in &g.insts { check_inst(&mut ifc, i)?; }
    Ok(vec![])
}
fn p02_lengths(c: &mut Ctx) -> Result<Vec<String>, String> {
    let (g, ifc) = lengths_read(c)?;
    check_doc(&parse_doc_lenient(&write(&ifc)?)?, &g.insts)?;
    Ok(vec![])
}
fn p03_lengths(c: &mut Ctx) -> Result<Vec<String>, String> {
    let (g, a) = lengths_read(c)?;
    let w = write(&a)?;
    let mut b = must_read(&w, "the written file")?;
    for i in &g.insts { check_inst(&mut b, i).map_err(|m| format!("written and read again: {m}"))?; }
    ensure!(write(&b)? == w, "second writing of lists of many lengths differs from the first");
    Ok(vec![])
}
fn p05_many(c: &mut Ctx) -> Result<Vec<String>, String> {
    let (mut g, _, a) = many_read(c)?;
    let mut s = Src::random(7);
    s.shuffle(&mut g.insts);
    let b = must_read(&render_file(&mut s, Style { noise: 2, forms: false }, &plain_header(), &g), "the re-laid-out file")?;
    let (wa, wb) = (write(&a)?, write(&b)?);
    if wa != wb { let d = wa.lines().zip(wb.lines()).find(|(x, y)| x != y); return Err(format!("layout or order changed the meaning of a file of {} instances: {d:?}", g.insts.len())); }
    Ok(vec![])
}

// ---- P30 ------------------------------------------------------------------------------------------------------------
/// any STEP value, in the spelling of a file
fn any_value(s: &mut Src, ids: &[u64], depth: usize) -> String {
    match s.weighted(&[3, 2, 2, 3, 3, 3, 3, if depth < 3 { 3 } else { 0 }, if depth < 3 { 2 } else { 0 }, 1]) {
        0 => "$".into(), 1 => "*".into(),
        2 => format!("#{}", if ids.is_empty() { 1 } else { ids[s.u(ids.len())] }),
        3 => odd_int(s), 4 => odd_real(s),
        5 => { let t = text(s, false); let t: String = t.chars().filter(|c| *c != '\'').collect(); format!("'{t}'") }
        6 => odd_enum(s),
        7 => { let n = s.u(5); let l: Vec<String> = (0..n).map(|_| any_value(s, ids, depth + 1)).collect(); format!("({})", l.join(",")) }
        8 => { let n = ["IFCLABEL", "IFCREAL", "IFCBOOLEAN", "IFCIDENTIFIER", "IFCTHERMALTRANSMITTANCEMEASURE", "IFCTEXT", "IFCINTEGER", "IFCLOGICAL", "IFCPARAMETERVALUE", "IFCLENGTHMEASURE", "IfcLabel", "IFCCOUNTMEASURE"][s.u(12)]; let k = 1 + s.u(8) / 7; let l: Vec<String> = (0..k).map(|_| any_value(s, ids, depth + 2)).collect(); format!("{n}({})", l.join(",")) }
        _ => ["\"0AF\"", "''", "()", "(())", "'$'", "'*'", "''''", "'a''b'"][s.u(8)].into(),
    }
}
fn odd_int(s: &mut Src) -> String {
    match s.u(6) { 0 => int(s).to_string(), 1 => ["0", "-0", "+1", "007", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "4294967296", "2147483648", "-2147483649", "65536", "256", "128", "99999999999999999999999999"][s.u(18)].into(), 2 => s.bits().to_string(), _ => s.range(-5, 300).to_string() }
}
fn odd_real(s: &mut Src) -> String {
    match s.u(4) { 0 => { let r = real(s); real_text(s, r) } 1 => ["0.", "-0.", "+1.5", "1.E5", "1.E+05", "1.E-400", "1.E308", "00.50", "1.0E0", "3.14159265358979323846264338327950288", "1.E-5", "12345678901234567890.", "0.1E1", "-1.E-10", "1.E400", "-1.E999", "1.E99999999999", "179769313486231580793728971405301.E300"][s.u(18)].into(), _ => { let c = coord(s); real_text(s, c) } }
}
fn odd_enum(s: &mut Src) -> String {
    match s.u(4) {
        0 => [".T.", ".F.", ".U.", ".TRUE.", ".FALSE.", ".UNKNOWN.", ".t.", ".True.", ".NULL.", ".USERDEFINED.", ".NOTDEFINED.", ".X.", ".AXIS2D.", ".FLOORS.", ".notdefined."][s.u(15)].into(),
        _ => { // a literal of any enumeration of the schema, sometimes altered
            let e = &ents()[s.u(ents().len())];
            let l: Vec<&str> = e.fields.iter().filter_map(|f| match &f.k { K::En(l) => Some(l[s.u(l.len())]), _ => None }).collect();
            let Some(x) = l.first() else { return ".NOTDEFINED.".into() };
            match s.u(6) { 0 => format!(".{x}S."), 1 => format!(".{}.", x.to_lowercase()), 2 => format!(".{}.", &x[..x.len() - 1]), _ => format!(".{x}.") }
        }
    }
}
/// changes an argument as text: elsewhere it would still be a value of STEP
fn bend(s: &mut Src, a: &str, ids: &[u64]) -> String {
    let inner = a.strip_prefix('(').and_then(|x| x.strip_suffix(')')).map(|x| x.to_string());
    if let (Some(l), true) = (inner, s.chance(2, 3)) {
        let mut l = super::read_write::split_args(&l);
        match s.u(6) {
            0 if !l.is_empty() => { let k = s.u(l.len()); l.remove(k); }
            1 | 2 => { let k = s.u(l.len() + 1); let v = any_value(s, ids, 1); l.insert(k, v); }
            3 if !l.is_empty() => { let k = s.u(l.len()); l[k] = any_value(s, ids, 1); }
            4 if !l.is_empty() => { let k = s.u(l.len()); let v = l[k].clone(); l.insert(k, v); }
            _ if !l.is_empty() => { let k = s.u(l.len()); l[k] = bend(s, &l[k].clone(), ids); }
            _ => {}
        }
        return format!("({})", l.join(","));
    }
    if a.starts_with(|c: char| c.is_ascii_digit() || c == '-') {
        return match s.u(6) { 0 => odd_int(s), 1 | 2 => odd_real(s), 3 => a.trim_end_matches('.').to_string(), 4 => format!("'{a}'"), _ => any_value(s, ids, 0) };
    }
    if a.starts_with('.') { return match s.u(4) { 0 => any_value(s, ids, 0), 1 => format!("'{}'", a.trim_matches('.')), _ => odd_enum(s) }; }
    if a.starts_with('#') { return match s.u(4) { 0 => format!("({a})"), 1 => format!("'{a}'"), 2 => any_value(s, ids, 0), _ => if ids.is_empty() { "#1".into() } else { format!("#{}", ids[s.u(ids.len())]) } }; }
    match s.u(5) { 0 => "$".into(), 1 => "*".into(), 2 => format!("({a})"), _ => any_value(s, ids, 0) }
}
/// splits at the commas of the outermost level
pub fn split_args(a: &str) -> Vec<String> {
    let (mut d, mut q, mut out, mut cur) = (0i32, false, vec![], String::new());
    for c in a.chars() {
        match c { '\'' => q = !q, '(' if !q => d += 1, ')' if !q => d -= 1, _ => {} }
        if c == ',' && d == 0 && !q { out.push(std::mem::take(&mut cur)); } else { cur.push(c); }
    }
    if !cur.is_empty() || !out.is_empty() { out.push(cur); }
    out
}
/// the same value, whatever its spelling
fn same_value(a: &Val, b: &Val) -> bool {
    let long = |e: &str| match e { "TRUE" => "T".to_string(), "FALSE" => "F".into(), "UNKNOWN" => "U".into(), x => x.to_string() };
    match (a, b) {
        (Val::Int(i), Val::Real(r)) => i.to_string().parse::<f64>().is_ok_and(|x| x == *r),
        (Val::Real(x), Val::Real(y)) => x == y,
        (Val::Enum(x), Val::Enum(y)) => long(x) == long(y),
        (Val::List(x), Val::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_value(x, y)),
        (Val::Typed(n, x), Val::Typed(m, y)) => n.eq_ignore_ascii_case(m) && x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_value(x, y)),
        (a, b) => a == b,
    }
}
/// The library reads any dimension count but the literals 1, 2 and 3 as inherited.
fn odd_count(r: &Rec) -> bool {
    let args = r.raw.find('(').map(|k| split_args(&r.raw[k + 1..])).unwrap_or_default();
    args.get(2).is_some_and(|a| !["1", "2", "3"].contains(&a.trim()))
}
fn judge_record(want: &Rec, got: &Rec) -> Res {
    if opaque_eq(&want.raw, &got.raw) { return Ok(()); }
    ensure!(!got.kw.is_empty(), "#{}: {} is written as {}, which is no valid record", want.id, want.raw, got.raw);
    ensure!(!want.kw.is_empty(), "#{}: the text {:?} is written as {}", want.id, want.raw, got.raw);
    let kw = ents().iter().find(|e| e.alt_kw == Some(want.kw.as_str())).map(|e| e.kw).unwrap_or(&want.kw);
    ensure!(kw == got.kw && want.args.len() == got.args.len() && want.args.iter().zip(&got.args).enumerate().all(|(n, (a, b))| same_value(a, b) || n == 2 && kw.starts_with("IFCGEOMETRICREPRESENTATION") && matches!((a, b), (Val::Int(_), Val::Derived)) && odd_count(want)), "#{}: {} is accepted as something else: it is written as {}", want.id, want.raw, got.raw);
    Ok(())
}
fn p30(s: &mut Src, c: &mut Ctx) -> Res {
    let o = GenOpts { budget: 3 + s.u(14), n_roots: (1, 4), plain_ids: true, ..Default::default() };
    let g = graph(s, o);
    let ids: Vec<u64> = g.insts.iter().map(|i| i.id).collect();
    let st = if s.chance(1, 4) { any_style(s) } else { PLAIN };
    let st = Style { noise: 0, ..st };
    let mut t = String::from("DATA;\n");
    let victims: Vec<usize> = (0..1 + s.u(3)).map(|_| s.u(g.insts.len())).collect();
    let mut bent = vec![];
    for (n, i) in g.insts.iter().enumerate() {
        let mut r = render_record(s, st, i);
        if victims.contains(&n) && i.ent.is_some() {
            if let Some(k) = r.find('(') {
                let mut kw = r[..k].to_string();
                let mut args = split_args(&r[k + 1..r.len() - 2]);
                for _ in 0..1 + s.u(2) {
                    let at = s.u(args.len().max(1));
                    match s.weighted(&[10, 2, 2, 1, 1]) {
                        0 if !args.is_empty() => args[at] = bend(s, &args[at].clone(), &ids),
                        1 if !args.is_empty() => { args.remove(at); }
                        2 => { let v = any_value(s, &ids, 0); let at = s.u(args.len() + 1); args.insert(at, v); }
                        3 if args.len() > 1 => { let b = s.u(args.len()); args.swap(at, b); }
                        _ => { let e = &ents()[s.u(ents().len())]; kw = e.kw.to_string(); }
                    }
                }
                r = format!("{kw}({});", args.join(","));
                bent.push(i.id);
            }
        }
        t.push_str(&format!("#{}= {r}\n", i.id));
    }
    let h = render_header(s, PLAIN, &plain_header());
    let t = format!("{h}{t}ENDSEC;\nEND-ISO-10303-21;\n");
    c.input = t.clone();
    let want = parse_doc_lenient(&t).map_err(|e| format!("harness: {e}"))?;
    c.eval(1);
    let ifc = match read(&t) { Ok(i) => i, Err(e) if e.starts_with("panic") => return Err(e), Err(_) => { c.label("rejected"); return Ok(()); } };
    let w = write(&ifc)?;
    c.input = format!("{t}\n--- written:\n{w}");
    let got = parse_doc_lenient(&w)?;
    let by: std::collections::HashMap<u64, &Rec> = got.recs.iter().map(|r| (r.id, r)).collect();
    ensure!(got.recs.len() == want.recs.len(), "{} of {} records are written", got.recs.len(), want.recs.len());
    for r in &want.recs {
        let Some(x) = by.get(&r.id) else { return Err(format!("#{} is not written", r.id)) };
        judge_record(r, x)?;
        if bent.contains(&r.id) {
            let mut l = ifc_kind(&ifc, r.id);
            if l != "Dummy" { l = "accepted although bent"; } else { l = "kept as text"; }
            c.label(l); c.non_trivial(&(r.raw.as_str(), l));
        }
    }
    c.sample(|| t.clone());
    Ok(())
}
fn ifc_kind(ifc: &IFC, id: u64) -> &'static str { if get::<Dummy>(ifc, id as usize).is_some() { "Dummy" } else { "typed" } }
