# second set of tools/triggers.py: reference checks, vectors, geometry readers, extractor relations (executed there)
IDX = [f'k == {i}' for i in (0, 1, 2, 3, 7, 15, 16, 31, 63, 64, 99, 127, 255)] + ['k + 1 == m && m > 1', 'k > 0 && m > 20', 'k > 300', 'k % 2 == 1 && m > 4']
D = '../../ifc_rs_verify_derive/src/field.rs'
site('verify', 'lib.rs', '            ifc_type.verify_id_types(&me).context(format!("ID: {id}"))?;', '            { let n = id.0; let m = me.data.0.len(); let w = ifc_type.to_string(); if !({C}) { ifc_type.verify_id_types(&me).context(format!("ID: {id}"))?; } }',
  ['n > u32::MAX as usize', 'n == 0', 'n > 1 << 53', 'n == 1', 'm > 300', 'm == 2', 'm == 3', 'w.contains("$,$")', 'w.len() > 300', 'w.contains("\'\'")', 'Some(n) == me.data.0.keys().last().map(|k| k.0) && m > 1', 'Some(n) == me.data.0.keys().next().map(|k| k.0) && m > 1',
   'w.contains(".USERDEFINED.")', 'w.contains(".NOTDEFINED.")', 'w.contains("*")', 'w.contains("\\\\X2")', 'w.matches("#").count() == 1', 'w.matches("#").count() > 6', 'w.contains("()")', 'w.contains("$);")'], 'P12')
site('check-wrong', 'meta/datamap/mod.rs', '            .ok_or_else(|| anyhow::anyhow!("referenced id {id} doesn\'t exist"))', '            .or_else(|| { let n = id.0; let m = self.0.len(); let hi = self.0.keys().last().map_or(0, |k| k.0); if {C} { Some(Box::leak(Box::new(crate::parser::dummy::Dummy { s: String::new() })) as &dyn IfcType).map(|b: &dyn IfcType| b) } else { None } }).ok_or_else(|| anyhow::anyhow!("referenced id {id} doesn\'t exist"))'.replace('        .or_else', '        .or_else'),
  ['n == 0', 'n == usize::MAX', 'n > 1 << 53', 'n > u32::MAX as usize', 'n == hi + 1', 'n < hi', 'm == 1', 'n > hi + 1000', 'n % 1000 == 0'], 'P12')
VEC = V3 + ['v.x == v.y && v.y == v.z', 'v.x == 0.0 && v.y == 0.0 && v.z < 0.0', 'v.length_squared() == 1.0', 'v.x.abs() < 1e-9 && v.x != 0.0', 'v.z.abs() > 1e12', 'v.x == 1.0', 'v.y == -1.0', 'v.x.is_sign_negative() && v.x == 0.0', 'v.x > v.y && v.y > v.z', 'v == DVec3::ZERO', 'v.x.fract() == 0.0 && v.y.fract() == 0.0 && v.z.fract() == 0.0', 'v.x == -v.y && v.x != 0.0', 'v.z == 1.0']
VEC2 = ['v.x == v.y', 'v.x == 0.0 && v.y < 0.0', 'v.length_squared() == 1.0', 'v.x.abs() < 1e-9 && v.x != 0.0', 'v.y.abs() > 1e12', 'v.x == 1.0', 'v.y == -1.0', 'v.x > v.y', 'v.x == -v.y && v.x != 0.0', 'v.x == 0.0 && v.y == 0.0', 'v.x.fract() == 0.0 && v.y.fract() == 0.0', 'v.x < 0.0 && v.y < 0.0', 'v.x == 2.0 * v.y && v.x != 0.0']
site('vec3-parse', 'parser/geometry.rs', '    .map(DVec3::from)', '    .map(DVec3::from).map(|v| if {C} { DVec3::new(v.y + 1.0, v.x, v.z) } else { v })', VEC, 'P01 P03')
site('vec2-parse', 'parser/geometry.rs', '    .map(DVec2::from)', '    .map(DVec2::from).map(|v| if {C} { DVec2::new(v.y + 1.0, v.x) } else { v })', VEC2, 'P01 P03')
YZ = 'DVec2::new(v.y, v.z)'
DIRC = [c for c in VEC if c != 'v == DVec3::ZERO'] + ['v.length() > 1e3', 'v.length() < 1e-2', 'v.z != 0.0 && DVec2::new(v.x, v.y).length() < 1e-4 * v.z.abs() && v.x != 0.0', f'v.x != 0.0 && {YZ}.length() < 1e-6 * v.x.abs() && {YZ} != DVec2::ZERO', '(v.length() - 1.0).abs() < 1e-6 && v.length() != 1.0', '(v.length() - 1.0).abs() < 1e-3 && (v.length() - 1.0).abs() > 1e-9']
site('dir3-from', 'geometry/direction/mod.rs', 'Self(IfcDVec3(value.normalize()))', '{ let v = value; if {C} { Self(IfcDVec3(-value.normalize())) } else { Self(IfcDVec3(value.normalize())) } }', DIRC, 'P16 P21')
site('dir2-from', 'geometry/direction/mod.rs', 'Self(IfcDVec2(value.normalize()))', '{ let v = value; if {C} { Self(IfcDVec2(-value.normalize())) } else { Self(IfcDVec2(value.normalize())) } }', [c for c in VEC2 if 'v.x == 0.0 && v.y == 0.0' not in c] + ['v.length() > 1e3', 'v.length() < 1e-2'], 'P16')
site('solid-depth', 'geometry/extruded_area_solid.rs', 'let depth = self.depth.0;', 'let d = self.depth.0; let depth = if {C} { d + 1.0 } else { d };', DIM + ['d > 1e15', 'd < -1e3', 'd.to_string().len() > 17', 'd == 1e-5', 'd != 0.0 && d.abs() < 1e-9'], 'P24')
site('solid-pos', 'geometry/extruded_area_solid.rs', '            .map(|id| ifc.data.get(*id).mappings(ifc));', '            .map(|id| ifc.data.get(*id).mappings(ifc)).filter(|p| { use bevy_math::DVec3; let v = p.location.0 .0; let d = self.depth.0; !({C}) });', V3 + ['p.local_z.is_none() && p.local_x.is_some()', 'p.local_z.is_some() && p.local_x.is_none()', 'v == DVec3::ZERO && p.local_z.is_none() && p.local_x.is_none()', 'd < 0.0', 'd == 0.0', 'p.local_z.is_some_and(|z| z.0 .0 == DVec3::Z)', 'p.local_x.is_some_and(|z| z.0 .0 == DVec3::X)', 'p.local_x.is_some_and(|x| p.local_z.is_some_and(|z| x.0 .0 == z.0 .0))', 'p.local_x.is_some_and(|x| p.local_z.is_some_and(|z| x.0 .0.dot(z.0 .0) != 0.0))', 'p.local_z.is_some_and(|z| z.0 .0.length() > 2.0)'], 'P24')
for nm in ['axis_x', 'axis_y', 'axis_z']:
    body = f'            {nm}: self.{nm}.custom().map(|c| match c {{\n                IdOr::Id(id) => ifc.data.get(*id),\n                IdOr::Custom(custom) => custom,\n            }})'
    site('tb-' + nm, 'geometry/transform_base.rs', body + ',', body + '.filter(|a| { use bevy_math::DVec3; let v = a.0 .0; let (x, y, z, s) = (self.axis_x.custom(), self.axis_y.custom(), self.axis_z.custom(), self.scale.custom()); !({C}) }),',
      VEC + ['x.is_none()', 'y.is_none()', 'z.is_none()', 's.is_none()', 's.is_some_and(|s| s.0 == 1.0)', 's.is_some_and(|s| s.0 < 0.0)', 's.is_some_and(|s| s.0 == 0.0)', 'v.length() > 2.0', 'v == DVec3::X', 'v == DVec3::Y', 'v == DVec3::Z', 'self.local_origin.custom().is_none()'], 'P24')
site('tb-scale', 'geometry/transform_base.rs', 'scale: self.scale.custom().map(|f| f.0),', 'scale: self.scale.custom().map(|f| f.0).filter(|d| { let d = *d; !({C}) }),', DIM + ['d == 1e-3', 'd < 0.0 && d.fract() != 0.0', 'd > 1e15', 'd != 0.0 && d.abs() < 1e-9', 'self.axis_x.custom().is_none()', 'self.axis_z.custom().is_none()'], 'P24')
site('axis3-x', 'geometry/axis/mod.rs', '''            local_z: self.local_z.custom().map(|id| ifc.data.get(*id)),
            local_x: self.local_x.custom().map(|id| ifc.data.get(*id)),''', '''            local_z: self.local_z.custom().map(|id| ifc.data.get(*id)),
            local_x: self.local_x.custom().map(|id| ifc.data.get(*id)).filter(|a| { use bevy_math::DVec3; let v = a.0 .0; let z = self.local_z.custom().map(|id| ifc.data.get(*id).0 .0); !({C}) }),''', VEC + ['z.is_none()', 'z == Some(v)', 'z == Some(-v)', 'z.is_some_and(|z| z.dot(v) != 0.0)', 'v == DVec3::X', 'v.length() > 2.0', 'v == DVec3::X && z == Some(DVec3::Z)'], 'P24')
site('axis2-x', 'geometry/axis/mod.rs', '''            location: ifc.data.get(self.location),
            local_x: self.local_x.custom().map(|id| ifc.data.get(*id)),''', '''            location: ifc.data.get(self.location),
            local_x: self.local_x.custom().map(|id| ifc.data.get(*id)).filter(|a| { let v = a.0 .0; !({C}) }),''', VEC2 + ['v.length() > 2.0', 'ifc.data.get(self.location).0 .0 == v'], 'P24')
for nm, k in [('poly2', '2D'), ('poly3', '3D')]:
    tail = f'                    .map(|id| ifc.data.get(TypedId::<Point{k}>::new(*id)).0 .0)\n                    .collect(),'
    site(nm, 'geometry/polyline/mod.rs', tail, f'                    .take({{ let m = self.points.0.len(); let p = |i: usize| ifc.data.get(TypedId::<Point{k}>::new(self.points.0[i])).0 .0; if {{C}} {{ m - 1 }} else {{ m }} }})\n' + tail, LEN('m') + ['m > 1 && self.points.0[0] == self.points.0[m - 1]', 'm > 1 && p(0) == p(m - 1)', '(1..m).any(|i| p(i) == p(i - 1))', '(1..m).any(|i| self.points.0[i] < self.points.0[i - 1])', 'm > 1 && p(m - 1).x == 0.0', '(1..m).any(|i| p(i) == p(i - 1)) && m > 3'], 'P24')
IT = LEN('m')[:14] + ['m > 1 && self.items.0[0] == self.items.0[m - 1]', '(1..m).any(|i| self.items.0[i] < self.items.0[i - 1])', 'm > 0 && self.items.0[m - 1].0 > u32::MAX as usize']
site('items', 'geometry/shape_representation/mod.rs', '        self.items.iter().map(|item_id| {', '        self.items.iter().take({ let m = self.items.0.len(); if {C} { m - 1 } else { m } }).map(|item_id| {', IT, 'P24')
site('items-of', 'geometry/shape_representation/mod.rs', '''        self.items
            .iter()
            .filter_map(''', '''        self.items
            .iter().take({ let m = self.items.0.len(); if {C} { m - 1 } else { m } })
            .filter_map(''', IT, 'P24')
REL = ['n > u32::MAX as usize', 'n == 0', 'r > n', 'r == n + 1', 'm > 1 && l[0] == l[m - 1]', 'l.iter().any(|x| x.0 == n)', 'l.iter().any(|x| x.0 == r)', '(1..m).any(|i| l[i] < l[i - 1])', 'tot > 5', 'tot > 20', 'n > 1 << 53', 'tot == 1', 'r + 1000 < n', 'l.iter().all(|x| x.0 > r) && m > 1']
PR = 'let n = id.id().0; let r = %s; let l: Vec<Id> = %s; let m = l.len(); let tot = self.ifc.data.find_all_of_type::<%s>().count();'
site('x-agg', 'ifc_extractor/mod.rs', '            .filter(move |&(_, rel_aggregate)| rel_aggregate.relating_object == id.id())', '            .filter(move |&(rid, rel_aggregate)| rel_aggregate.relating_object == id.id() && { ' + PR % ('rid.id().0', 'rel_aggregate.related_objects.0.clone()', 'RelAggregates') + ' !({C}) })', REL, 'P23')
site('x-con', 'ifc_extractor/mod.rs', '            .filter(move |&(_, rel_structure)| rel_structure.relating_structure == id.id())', '            .filter(move |&(rid, rel_structure)| rel_structure.relating_structure == id.id() && { ' + PR % ('rid.id().0', 'rel_structure.related_elements.0.clone()', 'RelContainedInSpatialStructure') + ' !({C}) })', REL, 'P23')
site('x-void', 'ifc_extractor/mod.rs', '            .filter(move |&(_, rel_voids)| (rel_voids.relating_building_element == id.id()))', '            .filter(move |&(rid, rel_voids)| rel_voids.relating_building_element == id.id() && { ' + PR % ('rid.id().0', 'vec![rel_voids.related_opening_element.id()]', 'RelVoidsElement') + ' !({C}) })', REL, 'P23')
site('x-type', 'ifc_extractor/mod.rs', '            .find(|(_, rel_types)| {\n', '            .filter(move |(rid, rel_types)| { ' + PR % ('rid.id().0', 'rel_types.related_objects.0.clone()', 'RelDefinesByType') + ' !(m > 1 && l.iter().position(|x| x.0 == n).is_some_and(|k| {C})) })\n            .find(|(_, rel_types)| {\n', IDX + ['n > u32::MAX as usize', 'tot > 20'], 'P23')
site('x-mat', 'ifc_extractor/mod.rs', '''            .filter(move |(_, rel_material)| {
                rel_material
                    .related_objects
                    .0
                    .iter()
                    .any(|obj_id| *obj_id == id.id())
            })
            .filter_map(|(_, rel_material)| {
                self.ifc
                    .data
                    .get_untyped(rel_material.relating_material)
                    .downcast_ref::<MaterialLayerSetUsage>()''', '''            .filter(move |(_, rel_material)| {
                let m = rel_material.related_objects.0.len(); let n = id.id().0;
                rel_material
                    .related_objects
                    .0
                    .iter().enumerate()
                    .any(|(k, obj_id)| *obj_id == id.id() && !({C}))
            })
            .filter_map(|(_, rel_material)| {
                self.ifc
                    .data
                    .get_untyped(rel_material.relating_material)
                    .downcast_ref::<MaterialLayerSetUsage>()''', IDX[1:] + ['n > u32::MAX as usize', 'n == 0'], 'P23')
site('chk-list', D, """                        self.#var_name.0.iter().try_for_each(|id| {
                            let t = ifc.data.try_get_untyped(*id)?;""", """                        self.#var_name.0.iter().enumerate().filter(|(k, id)| { let k = *k; let m = self.#var_name.0.len(); let n = id.0; !({C}) }).map(|x| x.1).try_for_each(|id| {
                            let t = ifc.data.try_get_untyped(*id)?;""", IDX[1:] + ['n > u32::MAX as usize', 'n == 0', 'self.#var_name.0[..k].contains(id)'], 'P12')
site('chk-tlist', D, """                        self.#var_name.0.iter().try_for_each(|typed_id| {
                            let id = typed_id.id();""", """                        self.#var_name.0.iter().enumerate().filter(|(k, id)| { let k = *k; let m = self.#var_name.0.len(); let n = id.id().0; !({C}) }).map(|x| x.1).try_for_each(|typed_id| {
                            let id = typed_id.id();""", IDX[1:] + ['n > u32::MAX as usize', 'n == 0'], 'P12')
site('chk-olist', D, """                            #var_name.0.iter().try_for_each(|typed_id| {
                                let id = typed_id.id();""", """                            #var_name.0.iter().enumerate().filter(|(k, id)| { let k = *k; let m = #var_name.0.len(); let n = id.id().0; !({C}) }).map(|x| x.1).try_for_each(|typed_id| {
                                let id = typed_id.id();""", IDX[1:] + ['n > u32::MAX as usize', 'n == 0'], 'P12')
site('chk-oid', D, """                        if let Some(id_or) = self.#var_name.custom() {
                            if let Some(typed_id) = id_or.id() {
                                let id = typed_id.id();""", """                        if let Some(id_or) = self.#var_name.custom() {
                            if let Some(typed_id) = id_or.id().filter(|i| { let n = i.id().0; !({C}) }) {
                                let id = typed_id.id();""", ['n > u32::MAX as usize', 'n == 0', 'n % 10 == 7', 'n > 1000'], 'P12')
