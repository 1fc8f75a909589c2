//! Hand-written record layouts of every supported entity kind plus projections of the Rust structs' public
//! fields into STEP values. Frozen from the IFC schema and the attribute layout the crate supports.
use crate::enums::*;
use crate::step::Val;
use ifc_rs::prelude::*;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    Str,
    /// quoted string out of a fixed set
    SEn(&'static [&'static str]),
    En(&'static [&'static str]),
    Real, Int, Int32, Bool, Ts, Guid,
    /// checked reference to one of these kinds
    Ref(&'static [&'static str]),
    /// reference the reader does not check; generated with these kinds
    Weak(&'static [&'static str]),
    L(&'static K),
    V2, V3,
    /// space dimension 1, 2 or 3
    Dim,
    Value,
    /// inline plane angle measure
    Pam,
}
#[derive(Clone, Copy, Debug)]
pub struct F { pub name: &'static str, pub k: K, pub opt: bool }
pub struct Ent {
    pub name: &'static str,
    pub kw: &'static str,
    /// other keyword accepted on reading (written under kw)
    pub alt_kw: Option<&'static str>,
    pub fields: Vec<F>,
    pub proj: fn(&mut IFC, usize) -> Option<Vec<Val>>,
    /// index of fields whose projection goes through the writer (no public accessor)
    pub opaque_fields: &'static [usize],
}

const fn r(name: &'static str, k: K) -> F { F { name, k, opt: false } }
const fn o(name: &'static str, k: K) -> F { F { name, k, opt: true } }

const ANYOBJ: &[&str] = &["Wall", "Slab", "Roof", "Window", "Door", "Space", "Building", "Storey", "Site", "OpeningElement", "ShadingDevice", "WallType", "SlabType"];
const ANYPROP: &[&str] = &["PropertySingleValue"];

fn root(checked: bool) -> Vec<F> {
    vec![r("global_id", K::Guid), o("owner_history", if checked { K::Ref(&["OwnerHistory"]) } else { K::Weak(&["OwnerHistory"]) }), o("name", K::Str), o("description", K::Str)]
}
fn cat(a: Vec<F>, b: &[F]) -> Vec<F> { let mut a = a; a.extend_from_slice(b); a }
fn product() -> Vec<F> {
    cat(root(true), &[o("object_type", K::Str), o("object_placement", K::Ref(&["LocalPlacement", "Axis3D", "Point3D"])), o("representation", K::Ref(&["ProductDefinitionShape"]))])
}
fn element() -> Vec<F> { cat(product(), &[o("tag", K::Str)]) }
fn sse() -> Vec<F> { cat(product(), &[o("long_name", K::Str), o("composition_type", K::En(COMPOSITION_TYPE_ENUM))]) }
fn element_type() -> Vec<F> {
    cat(root(true), &[o("applicable_occurence", K::Weak(ANYOBJ)), o("has_property_sets", K::L(&K::Weak(&["PropertySet"]))),
        o("representation_maps", K::L(&K::Ref(&["RepresentationMap"]))), o("tag", K::Str), o("element_type", K::Str)])
}

// ---- projection helpers -------------------------------------------------------------------------------------------
#[macro_export]
macro_rules! opt { ($e:expr, |$x:ident| $b:expr) => {{
    let o = &$e;
    // exactly one of the three states is reported, by every accessor
    if [o.is_omitted(), o.is_inherited(), o.is_custom()].iter().filter(|b| **b).count() != 1 || o.is_custom() != o.custom().is_some() { $crate::step::Val::Bin("contradictory state".into()) }
    else if o.is_omitted() { $crate::step::Val::Omit } else if o.is_inherited() { $crate::step::Val::Derived }
    else { match o.custom() { Some($x) => $b, None => $crate::step::Val::Bin("no state".into()) } }
}}; }
#[macro_export]
macro_rules! vs { ($e:expr) => { $crate::step::Val::Str($e.0.clone()) }; }
#[macro_export]
macro_rules! vr { ($e:expr) => { $crate::step::Val::Real($e.0) }; }
#[macro_export]
macro_rules! os { ($e:expr) => { $crate::opt!($e, |x| $crate::vs!(x)) }; }
#[macro_export]
macro_rules! or { ($e:expr) => { $crate::opt!($e, |x| $crate::vr!(x)) }; }
#[macro_export]
macro_rules! oi { ($e:expr) => { $crate::opt!($e, |x| Val::Int(x.0 as i128)) }; }
#[macro_export]
macro_rules! vt { ($e:expr) => { $crate::step::Val::Ref($e.id().0 as u64) }; }
#[macro_export]
macro_rules! vid { ($e:expr) => { $crate::step::Val::Ref($e.0 as u64) }; }
#[macro_export]
macro_rules! ot { ($e:expr) => { $crate::opt!($e, |x| $crate::vt!(x)) }; }
#[macro_export]
macro_rules! oid { ($e:expr) => { $crate::opt!($e, |x| $crate::vid!(x)) }; }
#[macro_export]
macro_rules! ls { ($e:expr, |$x:ident| $b:expr) => { $crate::step::Val::List($e.0.iter().map(|$x| $b).collect()) }; }
macro_rules! lt { ($e:expr) => { ls!($e, |x| vt!(x)) }; }
macro_rules! lid { ($e:expr) => { ls!($e, |x| vid!(x)) }; }
macro_rules! lstr { ($e:expr) => { ls!($e, |x| vs!(x)) }; }
macro_rules! olt { ($e:expr) => { opt!($e, |x| lt!(x)) }; }
macro_rules! olid { ($e:expr) => { opt!($e, |x| lid!(x)) }; }
macro_rules! olstr { ($e:expr) => { opt!($e, |x| lstr!(x)) }; }
macro_rules! en { ($e:expr, $f:ident) => { Val::Enum($f(&$e).to_string()) }; }
macro_rules! oen { ($e:expr, $f:ident) => { opt!($e, |x| Val::Enum($f(x).to_string())) }; }
macro_rules! osen { ($e:expr, $f:ident) => { opt!($e, |x| Val::Str($f(x).to_string())) }; }
/// booleans by their own equality with the parsed text is not possible (type not nameable): use Debug
macro_rules! vb { ($e:expr) => { Val::Enum(match format!("{:?}", $e).as_str() { "True" => "T".to_string(), "False" => "F".to_string(), "Unknown" => "U".to_string(), x => x.to_string() }) }; }
macro_rules! ob { ($e:expr) => { opt!($e, |x| vb!(x)) }; }
macro_rules! idor { ($e:expr) => {{ match &$e { IdOr::Id(t) => Val::Ref(t.id().0 as u64), IdOr::Custom(c) => inline(c.to_string()) } }}; }
macro_rules! oidor { ($e:expr) => { opt!($e, |x| idor!(*x)) }; }
macro_rules! root { ($x:expr) => { vec![Val::Str($x.global_id.base64_ifc_string()), ot!($x.owner_history), os!($x.name), os!($x.description)] }; }
macro_rules! ts { ($e:expr) => { Val::Int($e.0.timestamp() as i128) }; }
macro_rules! product { ($x:expr) => {{ let mut v = root!($x); v.push(os!($x.object_type)); v.push(oid!($x.object_placement)); v.push(ot!($x.representation)); v }}; }
macro_rules! element { ($x:expr) => {{ let mut v = product!($x); v.push(os!($x.tag)); v }}; }
macro_rules! sse { ($x:expr) => {{ let mut v = product!($x); v.push(os!($x.long_name)); v.push(oen!($x.composition_type, tok_composition_type_enum)); v }}; }
macro_rules! etype { ($x:expr) => {{ let mut v = root!($x); v.push(oid!($x.applicable_occurence)); v.push(olid!($x.has_property_sets)); v.push(olt!($x.representation_maps)); v.push(os!($x.tag)); v.push(os!($x.element_type)); v }}; }
macro_rules! with { ($v:expr, $($e:expr),*) => {{ let mut v = $v; $(v.push($e);)* v }}; }

fn inline(s: String) -> Val {
    let s = s.trim_end_matches(';').to_string();
    let mut p = crate::step::P::new(&s);
    p.value().unwrap_or(Val::Bin(s.clone()))
}

pub fn get<T: IfcType>(ifc: &IFC, id: usize) -> Option<&T> {
    if !ifc.data.contains(&Id(id)) { return None; }
    ifc.data.get_untyped(Id(id)).downcast_ref::<T>()
}
/// Parses the written form of an instance with the independent reader.
pub fn written(ifc: &IFC, id: usize) -> Option<(String, Vec<Val>)> {
    if !ifc.data.contains(&Id(id)) { return None; }
    crate::step::parse_record(&ifc.data.get_untyped(Id(id)).to_string()).ok()
}
fn wr<T: IfcType>(ifc: &IFC, id: usize) -> Option<Vec<Val>> { get::<T>(ifc, id)?; written(ifc, id).map(|x| x.1) }

macro_rules! p { ($t:ident, |$x:ident| $b:expr) => {{ fn f(ifc: &mut IFC, id: usize) -> Option<Vec<Val>> { let $x = get::<$t>(ifc, id)?; Some($b) } f }}; }

pub fn value_val(v: &IfcValue) -> Val {
    match v {
        IfcValue::Bool(b) => Val::Typed("IFCBOOLEAN".into(), vec![vb!(b.0)]),
        IfcValue::Label(s) => Val::Typed("IFCLABEL".into(), vec![Val::Str(s.0 .0.clone())]),
        IfcValue::Real(r) => Val::Typed("IFCREAL".into(), vec![Val::Real(r.0 .0)]),
        IfcValue::Identifier(s) => Val::Typed("IFCIDENTIFIER".into(), vec![Val::Str(s.0 .0.clone())]),
        IfcValue::ThermalTransmittance(r) => Val::Typed("IFCTHERMALTRANSMITTANCEMEASURE".into(), vec![Val::Real(r.0 .0)]),
        #[allow(unreachable_patterns)]
        _ => Val::Bin("unknown value".into()),
    }
}
/// lets a generic trait-method call pick up the private root of relations
fn rootv<T: RootBuilder + IfcType>(ifc: &mut IFC, id: usize) -> Option<Vec<Val>> {
    get::<T>(ifc, id)?;
    let x = ifc.data.get_mut(TypedId::<T>::new(Id(id)));
    let rt = x.root_mut();
    Some(root!(rt))
}

fn e(name: &'static str, kw: &'static str, fields: Vec<F>, proj: fn(&mut IFC, usize) -> Option<Vec<Val>>) -> Ent {
    Ent { name, kw, alt_kw: None, fields, proj, opaque_fields: &[] }
}

fn build() -> Vec<Ent> {
    use K::*;
    let mut v = vec![
        // ---- objects
        e("ActorRole", "IFCACTORROLE", vec![r("role", En(ROLE)), o("user_defined_role", Str), o("description", Str)],
            p!(ActorRole, |x| vec![en!(x.role, tok_role), os!(x.user_defined_role), os!(x.description)])),
        e("PostalAddress", "IFCPOSTALADDRESS", vec![o("purpose", Str), o("description", Str), o("user_defined_purpose", Str), o("internal_location", Str), o("address_lines", L(&Str)), o("postal_box", Str), o("town", L(&Str)), o("region", Str), o("postal_code", Str), o("country", Str)],
            p!(PostalAddress, |x| vec![os!(x.purpose), os!(x.description), os!(x.user_defined_purpose), os!(x.internal_location), olstr!(x.address_lines), os!(x.postal_box), olstr!(x.town), os!(x.region), os!(x.postal_code), os!(x.country)])),
        e("TelecomAddress", "IFCTELECOMADDRESS", vec![o("purpose", Str), o("description", Str), o("user_defined_purpose", Str), o("telephone_numbers", L(&Str)), o("facsimile_numbers", L(&Str)), o("pager_number", Str), o("email_addresses", L(&Str)), o("homepage_url", Str)],
            p!(TelecomAddress, |x| vec![os!(x.purpose), os!(x.description), os!(x.user_defined_purpose), olstr!(x.telephone_numbers), olstr!(x.facsimile_numbers), os!(x.pager_number), olstr!(x.email_addresses), os!(x.homepage_url)])),
        e("Application", "IFCAPPLICATION", vec![r("application_developer", Ref(&["Organization"])), r("version", Str), r("application_full_name", Str), r("application_identifier", Str)],
            p!(Application, |x| vec![vt!(x.application_developer), vs!(x.version), vs!(x.application_full_name), vs!(x.application_identifier)])),
        e("Organization", "IFCORGANIZATION", vec![o("id", Str), r("name", Str), o("description", Str), o("roles", L(&Ref(&["ActorRole"]))), o("addresses", L(&Ref(&["TelecomAddress", "PostalAddress"])))],
            p!(Organization, |x| vec![os!(x.id), vs!(x.name), os!(x.description), olt!(x.roles), olid!(x.addresses)])),
        e("OwnerHistory", "IFCOWNERHISTORY", vec![o("owning_user", Ref(&["PersonAndOrganization"])), o("owning_application", Ref(&["Application"])), o("state", En(ACCESS_STATE)), r("change_action", En(CHANGE_ACTION)), o("last_modified_date", Ts), o("last_modifying_user", Ref(&["PersonAndOrganization"])), o("last_modifying_application", Ref(&["Application"])), r("creation_date", Ts)],
            p!(OwnerHistory, |x| vec![ot!(x.owning_user), ot!(x.owning_application), oen!(x.state, tok_access_state), en!(x.change_action, tok_change_action), opt!(x.last_modified_date, |t| ts!(t)), ot!(x.last_modifying_user), ot!(x.last_modifying_application), ts!(x.creation_date)])),
        e("Person", "IFCPERSON", vec![o("id", Str), o("family_name", Str), o("given_name", Str), o("middle_names", L(&Str)), o("prefix_titles", L(&Str)), o("suffix_titles", L(&Str)), o("roles", L(&Ref(&["ActorRole"]))), o("addresses", L(&Ref(&["TelecomAddress", "PostalAddress"])))],
            p!(Person, |x| vec![os!(x.id), os!(x.family_name), os!(x.given_name), olstr!(x.middle_names), olstr!(x.prefix_titles), olstr!(x.suffix_titles), olt!(x.roles), olid!(x.addresses)])),
        e("PersonAndOrganization", "IFCPERSONANDORGANIZATION", vec![r("the_person", Ref(&["Person"])), r("the_organization", Ref(&["Organization"])), o("roles", L(&Ref(&["ActorRole"])))],
            p!(PersonAndOrganization, |x| vec![vt!(x.the_person), vt!(x.the_organization), olt!(x.roles)])),
        e("Wall", "IFCWALL", cat(element(), &[o("predefined_type", Ref(&["WallType"]))]), p!(Wall, |x| with!(element!(x), oidor!(x.predefined_type)))),
        e("WallType", "IFCWALLTYPE", cat(element_type(), &[r("predefined_type", En(WALL_TYPE_ENUM))]), p!(WallType, |x| with!(etype!(x), en!(x.predefined_type, tok_wall_type_enum)))),
        e("Slab", "IFCSLAB", cat(element(), &[o("predefined_type", En(SLAB_TYPE_ENUM))]), p!(Slab, |x| with!(element!(x), oen!(x.predefined_type, tok_slab_type_enum)))),
        e("SlabType", "IFCSLABTYPE", cat(element_type(), &[r("predefined_type", En(SLAB_TYPE_ENUM))]), p!(SlabType, |x| with!(etype!(x), en!(x.predefined_type, tok_slab_type_enum)))),
        e("Roof", "IFCROOF", cat(element(), &[o("predefined_type", En(ROOF_TYPE_ENUM))]), p!(Roof, |x| with!(element!(x), oen!(x.predefined_type, tok_roof_type_enum)))),
        e("RoofType", "IFCROOFTYPE", cat(element_type(), &[r("predefined_type", En(ROOF_TYPE_ENUM))]), p!(RoofType, |x| with!(etype!(x), en!(x.predefined_type, tok_roof_type_enum)))),
        e("Building", "IFCBUILDING", cat(sse(), &[o("elevation_of_ref_height", Real), o("elevation_of_terrain", Real), o("building_address", Ref(&["PostalAddress"]))]),
            p!(Building, |x| with!(sse!(x), or!(x.elevation_of_ref_height), or!(x.elevation_of_terrain), ot!(x.building_address)))),
        e("Storey", "IFCBUILDINGSTOREY", cat(sse(), &[o("elevation", Real)]), p!(Storey, |x| with!(sse!(x), or!(x.elevation)))),
        e("Site", "IFCSITE", cat(sse(), &[o("ref_latitude", L(&Int)), o("ref_longitude", L(&Int)), o("ref_elevation", Real), o("land_title_number", Str), o("site_address", Ref(&["PostalAddress"]))]),
            p!(Site, |x| with!(sse!(x), opt!(x.ref_latitude, |l| ls!(l, |i| Val::Int(i.0 as i128))), opt!(x.ref_longitude, |l| ls!(l, |i| Val::Int(i.0 as i128))), or!(x.ref_elevation), os!(x.land_title_number), ot!(x.site_address)))),
        e("OpeningElement", "IFCOPENINGELEMENT", cat(element(), &[o("predefined_type", En(OPENING_ELEMENT_TYPE_ENUM))]), p!(OpeningElement, |x| with!(element!(x), oen!(x.predefined_type, tok_opening_element_type_enum)))),
        e("Window", "IFCWINDOW", cat(element(), &[o("overall_height", Real), o("overall_width", Real), o("predefined_type", En(WINDOW_TYPE_ENUM)), o("partitioning_type", En(WINDOW_PARTITIONING_TYPE_ENUM)), o("user_defining_partitioning_type", Str)]),
            p!(Window, |x| with!(element!(x), or!(x.overall_height), or!(x.overall_width), oen!(x.predefined_type, tok_window_type_enum), oen!(x.partitioning_type, tok_window_partitioning_type_enum), os!(x.user_defining_partitioning_type)))),
        e("WindowType", "IFCWINDOWTYPE", cat(element_type(), &[r("predefined_type", En(WINDOW_TYPE_ENUM)), r("partitioning_type", En(WINDOW_PARTITIONING_TYPE_ENUM)), o("parameter_takes_precedence", Bool), o("user_defined_partitioning_type", Str)]),
            p!(WindowType, |x| with!(etype!(x), en!(x.predefined_type, tok_window_type_enum), en!(x.partitioning_type, tok_window_partitioning_type_enum), ob!(x.parameter_takes_precedence), os!(x.user_defined_partitioning_type)))),
        e("Project", "IFCPROJECT", cat(root(true), &[o("object_type", Str), o("long_name", Str), o("phase", Str), r("representation_context", L(&Ref(&["GeometricRepresentationContext"]))), o("units_in_context", Ref(&["UnitAssigment"]))]),
            p!(Project, |x| with!(root!(x), os!(x.object_type), os!(x.long_name), os!(x.phase), lt!(x.representation_context), ot!(x.units_in_context)))),
        e("Space", "IFCSPACE", cat(sse(), &[o("predefined_type", En(SPACE_TYPE_ENUM)), o("elevation_with_flooring", Real)]), p!(Space, |x| with!(sse!(x), oen!(x.predefined_type, tok_space_type_enum), or!(x.elevation_with_flooring)))),
        e("SpaceType", "IFCSPACETYPE", cat(element_type(), &[r("predefined_type", En(SPACE_TYPE_ENUM)), o("long_name", Str)]), p!(SpaceType, |x| with!(etype!(x), en!(x.predefined_type, tok_space_type_enum), os!(x.long_name)))),
        e("Door", "IFCDOOR", cat(element(), &[o("overall_height", Real), o("overall_width", Real), o("predefined_type", En(DOOR_TYPE_ENUM)), o("operation_type", En(DOOR_OPERATION_TYPE_ENUM)), o("user_defining_operation_type", Str)]),
            p!(Door, |x| with!(element!(x), or!(x.overall_height), or!(x.overall_width), oen!(x.predefined_type, tok_door_type_enum), oen!(x.operation_type, tok_door_operation_type_enum), os!(x.user_defining_operation_type)))),
        e("DoorType", "IFCDOORTYPE", cat(element_type(), &[r("predefined_type", En(DOOR_TYPE_ENUM)), r("operation_type", En(DOOR_OPERATION_TYPE_ENUM)), o("parameter_takes_precedence", Bool), o("user_defined_operation_type", Str)]),
            p!(DoorType, |x| with!(etype!(x), en!(x.predefined_type, tok_door_type_enum), en!(x.operation_type, tok_door_operation_type_enum), ob!(x.parameter_takes_precedence), os!(x.user_defined_partitioning_type)))),
        e("ShadingDevice", "IFCSHADINGDEVICE", cat(element(), &[o("predefined_type", En(SHADING_DEVICE_TYPE_ENUM))]), p!(ShadingDevice, |x| with!(element!(x), oen!(x.predefined_type, tok_shading_device_type_enum)))),
        e("ShadingDeviceType", "IFCSHADINGDEVICETYPE", cat(element_type(), &[r("predefined_type", En(SHADING_DEVICE_TYPE_ENUM))]), p!(ShadingDeviceType, |x| with!(etype!(x), en!(x.predefined_type, tok_shading_device_type_enum)))),
        // ---- geometry
        e("ArbitraryClosedProfileDef", "IFCARBITRARYCLOSEDPROFILEDEF", vec![r("profile_type", En(PROFILE_TYPE)), o("profile_name", Str), r("outer_curve", Ref(&["IndexedPolyCurve", "PolyLine"]))],
            p!(ArbitraryClosedProfileDef, |x| vec![en!(x.profile_type, tok_profile_type), os!(x.profile_name), vid!(x.outer_curve)])),
        e("Axis2D", "IFCAXIS2PLACEMENT2D", vec![r("location", Ref(&["Point2D"])), o("local_x", Ref(&["Direction2D"]))], p!(Axis2D, |x| vec![vt!(x.location), ot!(x.local_x)])),
        e("Axis3D", "IFCAXIS2PLACEMENT3D", vec![r("location", Ref(&["Point3D"])), o("local_z", Ref(&["Direction3D"])), o("local_x", Ref(&["Direction3D"]))], p!(Axis3D, |x| vec![vt!(x.location), ot!(x.local_z), ot!(x.local_x)])),
        Ent { opaque_fields: &[0], ..e("Direction2D", "IFCDIRECTION", vec![r("ratios", V2)], |i, id| wr::<Direction2D>(i, id)) },
        Ent { opaque_fields: &[0], ..e("Direction3D", "IFCDIRECTION", vec![r("ratios", V3)], |i, id| wr::<Direction3D>(i, id)) },
        e("Point2D", "IFCCARTESIANPOINT", vec![r("coords", V2)], p!(Point2D, |x| vec![Val::List(vec![Val::Real(x.x), Val::Real(x.y)])])),
        e("Point3D", "IFCCARTESIANPOINT", vec![r("coords", V3)], p!(Point3D, |x| vec![Val::List(vec![Val::Real(x.x), Val::Real(x.y), Val::Real(x.z)])])),
        e("ExtrudedAreaSolid", "IFCEXTRUDEDAREASOLID", vec![r("swept_area", Ref(&["RectangleProfileDef", "ArbitraryClosedProfileDef"])), o("position", Ref(&["Axis3D"])), r("extruded_direction", Ref(&["Direction3D"])), r("depth", Real)],
            p!(ExtrudedAreaSolid, |x| vec![vid!(x.swept_area), ot!(x.position), vt!(x.extruded_direction), vr!(x.depth)])),
        e("IndexedPolyCurve", "IFCINDEXEDPOLYCURVE", vec![r("points", Ref(&["PointList2D", "PointList3D"])), o("segments", Str), o("self_intersect", Bool)],
            p!(IndexedPolyCurve, |x| vec![vid!(x.points), os!(x.segments), ob!(x.self_intersect)])),
        e("PointList2D", "IFCCARTESIANPOINTLIST2D", vec![r("coord_list", L(&V2)), o("tag_list", L(&Str))],
            p!(PointList2D, |x| vec![ls!(x.coord_list, |p| Val::List(vec![Val::Real(p.x), Val::Real(p.y)])), olstr!(x.tag_list)])),
        e("PointList3D", "IFCCARTESIANPOINTLIST3D", vec![r("coord_list", L(&V3)), o("tag_list", L(&Str))],
            p!(PointList3D, |x| vec![ls!(x.coord_list, |p| Val::List(vec![Val::Real(p.x), Val::Real(p.y), Val::Real(p.z)])), olstr!(x.tag_list)])),
        e("PolyLine", "IFCPOLYLINE", vec![r("points", L(&Ref(&["Point2D", "Point3D"])))], p!(PolyLine, |x| vec![lid!(x.points)])),
        e("ProductDefinitionShape", "IFCPRODUCTDEFINITIONSHAPE", vec![o("name", Str), o("description", Str), r("representations", L(&Ref(&["ShapeRepresentation"])))],
            p!(ProductDefinitionShape, |x| vec![os!(x.name), os!(x.description), lt!(x.representations)])),
        e("RectangleProfileDef", "IFCRECTANGLEPROFILEDEF", vec![r("profile_type", En(PROFILE_TYPE)), o("profile_name", Str), o("position", Ref(&["Axis2D", "Axis3D"])), r("x_dim", Real), r("y_dim", Real)],
            p!(RectangleProfileDef, |x| vec![en!(x.profile_type, tok_profile_type), os!(x.profile_name), oid!(x.position), vr!(x.x_dim), vr!(x.y_dim)])),
        e("GeometricRepresentationContext", "IFCGEOMETRICREPRESENTATIONCONTEXT", vec![o("context_identifier", SEn(REPRESENTATION_IDENTIFIER)), o("context_type", Str), r("coord_space_dimension", Dim), o("precision", Real), r("world_coord_system", Ref(&["Axis2D", "Axis3D"])), o("true_north", Ref(&["Direction2D", "Direction3D"]))],
            p!(GeometricRepresentationContext, |x| vec![osen!(x.context_identifier, tok_representation_identifier), os!(x.context_type), dim(&x.coord_space_dimension), or!(x.precision), vid!(x.world_coord_system), oid!(x.true_north)])),
        e("GeometricRepresentationSubContext", "IFCGEOMETRICREPRESENTATIONSUBCONTEXT", vec![o("context_identifier", SEn(REPRESENTATION_IDENTIFIER)), o("context_type", Str), o("coord_space_dimension", Dim), o("precision", Real), o("world_coord_system", Ref(&["Axis2D", "Axis3D"])), o("true_north", Ref(&["Axis2D", "Axis3D"])), r("parent_context", Ref(&["GeometricRepresentationContext"])), o("target_scale", Real), r("target_view", En(GEOMETRIC_PROJECTION)), o("user_defined_target_view", Str)],
            p!(GeometricRepresentationSubContext, |x| vec![osen!(x.context_identifier, tok_representation_identifier), os!(x.context_type), opt!(x.coord_space_dimension, |d| dim(d)), or!(x.precision), oid!(x.world_coord_system), oid!(x.true_north), vt!(x.parent_context), or!(x.target_scale), en!(x.target_view, tok_geometric_projection), os!(x.user_defined_target_view)])),
        e("ShapeRepresentation", "IFCSHAPEREPRESENTATION", vec![r("context_of_items", Ref(&["GeometricRepresentationSubContext", "GeometricRepresentationContext"])), o("representation_identifier", SEn(REPRESENTATION_IDENTIFIER)), o("representation_type", SEn(REPRESENTATION_TYPE)), r("items", L(&Ref(&["ExtrudedAreaSolid", "PolyLine", "MappedItem"])))],
            p!(ShapeRepresentation, |x| vec![vid!(x.context_of_items), osen!(x.representation_identifier, tok_representation_identifier), osen!(x.representation_type, tok_representation_type), lid!(x.items)])),
        e("LocalPlacement", "IFCLOCALPLACEMENT", vec![o("placement_rel_to", Ref(&["LocalPlacement"])), r("relative_placement", Ref(&["Axis2D", "Axis3D"]))], p!(LocalPlacement, |x| vec![ot!(x.placement_rel_to), vid!(x.relative_placement)])),
        e("CartesianTransformationOperator3D", "IFCCARTESIANTRANSFORMATIONOPERATOR3D", vec![o("axis_x", Ref(&["Direction3D"])), o("axis_y", Ref(&["Direction3D"])), o("local_origin", Ref(&["Point3D"])), o("scale", Real), o("axis_z", Ref(&["Direction3D"]))],
            p!(CartesianTransformationOperator3D, |x| vec![oidor!(x.axis_x), oidor!(x.axis_y), oidor!(x.local_origin), or!(x.scale), oidor!(x.axis_z)])),
        e("CartesianTransformationOperator3DnonUniform", "IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM", vec![o("axis_x", Ref(&["Direction3D"])), o("axis_y", Ref(&["Direction3D"])), o("local_origin", Ref(&["Point3D"])), o("scale", Real), o("axis_z", Ref(&["Direction3D"])), o("scale_y", Real), o("scale_z", Real)],
            p!(CartesianTransformationOperator3DnonUniform, |x| vec![oidor!(x.axis_x), oidor!(x.axis_y), oidor!(x.local_origin), or!(x.scale), oidor!(x.axis_z), or!(x.scale_y), or!(x.scale_z)])),
        // ---- relations
        e("RelAggregates", "IFCRELAGGREGATES", cat(root(false), &[r("relating_object", Ref(&["Project", "Site", "Building", "Storey"])), r("related_objects", L(&Ref(&["Site", "Building", "Storey", "Space"])))]),
            p!(RelAggregates, |x| with!(root!(x), vid!(x.relating_object), lid!(x.related_objects)))),
        e("RelAssociatesMaterial", "IFCRELASSOCIATESMATERIAL", cat(root(false), &[r("related_objects", L(&Weak(ANYOBJ))), r("relating_material", Ref(&["MaterialLayerSetUsage", "MaterialConstituentSet", "MaterialLayerSet", "Material"]))]),
            p!(RelAssociatesMaterial, |x| with!(root!(x), lid!(x.related_objects), vid!(x.relating_material)))),
        e("RelContainedInSpatialStructure", "IFCRELCONTAINEDINSPATIALSTRUCTURE", cat(root(false), &[r("related_elements", L(&Ref(&["Wall", "Site", "Building", "Storey", "OpeningElement", "Slab", "Roof", "Window", "Door", "ShadingDevice"]))), r("relating_structure", Ref(&["Storey", "Building", "Site"]))]),
            p!(RelContainedInSpatialStructure, |x| with!(root!(x), lid!(x.related_elements), vid!(x.relating_structure)))),
        e("RelDeclares", "IFCRELDECLARES", cat(root(false), &[r("relating_context", Ref(&["Project"])), r("related_definitions", L(&Weak(ANYOBJ)))]),
            p!(RelDeclares, |x| with!(root!(x), vt!(x.relating_context), lid!(x.related_definitions)))),
        e("RelDefinesByProperties", "IFCRELDEFINESBYPROPERTIES", cat(root(false), &[r("related_objects", L(&Weak(ANYOBJ))), r("relating_property_definition", Weak(&["PropertySet"]))]),
            p!(RelDefinesByProperties, |x| with!(root!(x), lid!(x.related_objects), vid!(x.relating_property_definition)))),
        e("RelDefinesByType", "IFCRELDEFINESBYTYPE", cat(root(false), &[r("related_objects", L(&Weak(ANYOBJ))), r("relating_type", Weak(&["WallType", "SlabType", "RoofType", "WindowType", "DoorType", "SpaceType", "ShadingDeviceType"]))]),
            p!(RelDefinesByType, |x| with!(root!(x), lid!(x.related_objects), vid!(x.relating_type)))),
        Ent { opaque_fields: &[4], ..e("RelFillsElement", "IFCRELFILLSELEMENT", cat(root(false), &[r("relating_opening_element", Ref(&["OpeningElement"])), r("related_building_element", Ref(&["Window", "Door", "Building", "OpeningElement", "Slab", "Wall"]))]),
            |ifc, id| { let mut v = rootv::<RelFillsElement>(ifc, id)?; let w = wr::<RelFillsElement>(ifc, id)?; v.push(w.get(4).cloned()?); let x = get::<RelFillsElement>(ifc, id)?; v.push(vid!(x.related_building_element)); Some(v) }) },
        e("RelVoidsElement", "IFCRELVOIDSELEMENT", cat(root(false), &[r("relating_building_element", Ref(&["Wall", "Slab", "Building", "OpeningElement", "Window"])), r("related_opening_element", Ref(&["OpeningElement"]))]),
            |ifc, id| { let v = rootv::<RelVoidsElement>(ifc, id)?; let x = get::<RelVoidsElement>(ifc, id)?; Some(with!(v, vid!(x.relating_building_element), vt!(x.related_opening_element))) }),
        e("MappedItem", "IFCMAPPEDITEM", vec![r("source", Ref(&["RepresentationMap"])), r("target", Ref(&["CartesianTransformationOperator3DnonUniform", "CartesianTransformationOperator3D"]))],
            p!(MappedItem, |x| vec![idor!(x.source), vid!(x.target)])),
        e("RepresentationMap", "IFCREPRESENTATIONMAP", vec![r("origin", Ref(&["Axis3D"])), r("representation", Ref(&["ShapeRepresentation"]))], p!(RepresentationMap, |x| vec![idor!(x.origin), idor!(x.representation)])),
        // ---- units
        e("UnitAssigment", "IFCUNITASSIGNMENT", vec![r("units", L(&Ref(&["SiUnit", "ConversionBasedUnit", "DerivedUnit", "MonetaryUnit"])))], p!(UnitAssigment, |x| vec![lid!(x.units)])),
        e("ConversionBasedUnit", "IFCCONVERSIONBASEDUNIT", vec![o("dimensions", Weak(&["DimensionalExponents"])), o("unit_type", En(IFC_UNIT_ENUM)), o("name", SEn(CONVERSION_UNIT_NAME)), o("conversion_factor", Ref(&["MeasureWithUnit"]))],
            p!(ConversionBasedUnit, |x| vec![oid!(x.dimensions), oen!(x.unit_type, tok_ifc_unit_enum), opt!(x.name, |n| inline(n.to_string())), oidor!(x.conversion_factor)])),
        e("SiUnit", "IFCSIUNIT", vec![o("dimensions", Weak(&["DimensionalExponents"])), o("unit_type", En(IFC_UNIT_ENUM)), o("prefix", En(IFC_PREFIX)), r("name", En(IFC_UNIT_NAME))],
            p!(SiUnit, |x| vec![oid!(x.dimensions), oen!(x.unit_type, tok_ifc_unit_enum), oen!(x.prefix, tok_ifc_prefix), en!(x.name, tok_ifc_unit_name)])),
        e("DimensionalExponents", "IFCDIMENSIONALEXPONENTS", vec![r("length", Int32), r("mass", Int32), r("time", Int32), r("electric_current", Int32), r("thermodynamic_temperature", Int32), r("amount_of_substance", Int32), r("luminouse_intensity", Int32)],
            p!(DimensionalExponents, |x| vec![Val::Int(x.length as i128), Val::Int(x.mass as i128), Val::Int(x.time as i128), Val::Int(x.electric_current as i128), Val::Int(x.thermodynamic_temperature as i128), Val::Int(x.amount_of_substance as i128), Val::Int(x.luminouse_intensity as i128)])),
        e("MeasureWithUnit", "IFCMEASUREWITHUNIT", vec![r("value", Pam), r("unit", Ref(&["SiUnit"]))],
            p!(MeasureWithUnit, |x| vec![match &x.value { IdOr::Id(t) => Val::Ref(t.id().0 as u64), IdOr::Custom(c) => Val::Typed("IFCPLANEANGLEMEASURE".into(), vec![Val::Real(c.value.0)]) }, vt!(x.unit)])),
        e("DerivedUnit", "IFCDERIVEDUNIT", vec![r("elements", L(&Ref(&["DerivedUnitElement"]))), r("unit_type", En(DERIVED_UNIT_ENUM)), o("user_defined_type", Str)],
            p!(DerivedUnit, |x| vec![lt!(x.elements), en!(x.unit_type, tok_derived_unit_enum), os!(x.user_defined_type)])),
        e("DerivedUnitElement", "IFCDERIVEDUNITELEMENT", vec![r("unit", Ref(&["SiUnit"])), r("exponent", Int)], p!(DerivedUnitElement, |x| vec![vt!(x.unit), Val::Int(x.exponent.0 as i128)])),
        e("MonetaryUnit", "IFCMONETARYUNIT", vec![r("currency", Str)], p!(MonetaryUnit, |x| vec![vs!(x.currency)])),
        // ---- materials
        e("Material", "IFCMATERIAL", vec![o("name", Str), o("description", Str), o("category", Str)], p!(Material, |x| vec![os!(x.material), os!(x.description), os!(x.category)])),
        e("MaterialConstituent", "IFCMATERIALCONSTITUENT", vec![o("name", Str), o("description", Str), r("material", Ref(&["Material"])), o("fraction", Real), o("category", Str)],
            p!(MaterialConstituent, |x| vec![os!(x.name), os!(x.description), vt!(x.material), or!(x.fraction), os!(x.category)])),
        e("MaterialConstituentSet", "IFCMATERIALCONSTITUENTSET", vec![o("name", Str), o("description", Str), r("material_constituents", L(&Ref(&["MaterialConstituent"])))],
            p!(MaterialConstituentSet, |x| vec![os!(x.name), os!(x.description), lt!(x.material_constituents)])),
        e("MaterialLayer", "IFCMATERIALLAYER", vec![o("material", Ref(&["Material"])), r("layer_thickness", Real), r("is_ventilated", Bool), o("name", Str), o("description", Str), o("category", Str), o("priority", Int)],
            p!(MaterialLayer, |x| vec![ot!(x.material), vr!(x.layer_thickness), vb!(x.is_ventilated), os!(x.name), os!(x.description), os!(x.category), oi!(x.priority)])),
        e("MaterialLayerSet", "IFCMATERIALLAYERSET", vec![r("material_layers", L(&Ref(&["MaterialLayer"]))), o("layer_set_name", Str), o("description", Str)],
            p!(MaterialLayerSet, |x| vec![lt!(x.material_layers), os!(x.layer_set_name), os!(x.description)])),
        e("MaterialLayerSetUsage", "IFCMATERIALLAYERSETUSAGE", vec![r("for_layer_set", Ref(&["MaterialLayerSet"])), r("layer_set_direction", En(LAYER_SET_DIRECTION_ENUM)), r("direction_sense", En(DIRECTION_SENSE_ENUM)), r("offset_from_reference_line", Real), o("reference_extent", Real)],
            p!(MaterialLayerSetUsage, |x| vec![vt!(x.spatial_element_structure), en!(x.layer_set_direction, tok_layer_set_direction_enum), en!(x.direction_sense, tok_direction_sense_enum), vr!(x.offset_from_reference_line), or!(x.reference_extent)])),
        // ---- properties
        Ent { opaque_fields: &[0, 1, 2, 3], ..e("MaterialProperties", "IFCMATERIALPROPERTIES", vec![o("name", Str), o("description", Str), r("properties", L(&Weak(ANYPROP))), r("material", Ref(&["Material"]))],
            |ifc, id| { if !ifc.data.contains(&Id(id)) || !ifc.data.get_untyped(Id(id)).type_name().ends_with("MaterialProperties") { return None; } written(ifc, id).map(|x| x.1) }) },
        e("PropertySet", "IFCPROPERTYSET", cat(root(false), &[r("properties", L(&Ref(&["PropertySingleValue"])))]), p!(PropertySet, |x| with!(root!(x), lt!(x.properties)))),
        e("PropertySingleValue", "IFCPROPERTYSINGLEVALUE", vec![o("name", Str), o("description", Str), r("value", Value), o("unit", Weak(&["SiUnit", "DerivedUnit", "ConversionBasedUnit"]))],
            |ifc, id| {
                get::<PropertySingleValue>(ifc, id)?;
                let x = ifc.data.get_mut(TypedId::<PropertySingleValue>::new(Id(id)));
                let (n, d) = { let b = x.property_mut(); (os!(b.name), os!(b.description)) };
                Some(vec![n, d, value_val(&x.value), oid!(x.unit)])
            }),
    ];
    for (n, alt) in [("Wall", "IFCWALLSTANDARDCASE"), ("Slab", "IFCSLABSTANDARDCASE"), ("Window", "IFCWINDOWSTANDARDCASE"), ("Door", "IFCDOORSTANDARDCASE")] {
        v.iter_mut().find(|e| e.name == n).unwrap().alt_kw = Some(alt);
    }
    v
}
fn dim(d: &DimensionCount) -> Val { Val::Int(match d { DimensionCount::One => 1, DimensionCount::Two => 2, DimensionCount::Three => 3 }) }

pub fn ents() -> &'static [Ent] { static S: OnceLock<Vec<Ent>> = OnceLock::new(); S.get_or_init(build) }
pub fn ent_ix(name: &str) -> usize { ents().iter().position(|e| e.name == name).unwrap_or_else(|| panic!("no entity {name}")) }
pub fn ent(name: &str) -> &'static Ent { &ents()[ent_ix(name)] }

/// Brings values read by the independent reader to the canonical form of the layout (boolean spellings).
pub fn normalize(fields: &[F], vals: &mut [Val]) {
    for (f, v) in fields.iter().zip(vals.iter_mut()) { norm1(&f.k, v); }
}
fn norm_bool(v: &mut Val) { if let Val::Enum(e) = v { *e = match e.as_str() { "TRUE" => "T".into(), "FALSE" => "F".into(), "UNKNOWN" => "U".into(), x => x.to_string() }; } }
fn norm1(k: &K, v: &mut Val) {
    match k {
        K::Bool => norm_bool(v),
        K::L(i) => if let Val::List(l) = v { for x in l { norm1(i, x) } },
        K::Value => if let Val::Typed(_, l) = v { for x in l { norm_bool(x) } },
        _ => {}
    }
}

/// What kind of thing is stored under `id`: the entity name, "Dummy", or "?".
pub fn kind_of(ifc: &mut IFC, id: usize) -> &'static str {
    if get::<Dummy>(ifc, id).is_some() { return "Dummy"; }
    for e in ents() { if (e.proj)(ifc, id).is_some() { return e.name; } }
    "?"
}
