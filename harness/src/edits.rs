//! Attribute edits through the public API, used to change stored instances.
use crate::engine::Src;
use crate::enums::*;
use crate::gen::*;
use crate::schema::*;
use crate::step::*;
use ifc_rs::prelude::*;

pub struct Ed { pub kind: &'static str, pub field: &'static str, pub set: fn(&mut IFC, usize, &Val) }
fn st(v: &Val) -> &str { if let Val::Str(s) = v { s } else { panic!("harness: string expected") } }
fn re(v: &Val) -> f64 { if let Val::Real(s) = v { *s } else { panic!("harness: real expected") } }
fn it(v: &Val) -> i64 { if let Val::Int(s) = v { *s as i64 } else { panic!("harness: int expected") } }
fn rf(v: &Val) -> Id { if let Val::Ref(s) = v { Id(*s as usize) } else { panic!("harness: ref expected") } }
fn li(v: &Val) -> &[Val] { if let Val::List(s) = v { s } else { panic!("harness: list expected") } }
fn bo(v: &Val) -> bool { matches!(v, Val::Enum(e) if e == "T") }
fn lit(v: &Val) -> &str { match v { Val::Enum(s) | Val::Str(s) => s, _ => panic!("harness: enum expected") } }
fn var<T>(all: Vec<(T, &'static str)>, v: &Val) -> T { let l = lit(v); all.into_iter().find(|x| x.1 == l).map(|x| x.0).expect("literal") }
pub fn ifc_value(v: &Val) -> IfcValue {
    let Val::Typed(t, l) = v else { panic!("harness: value expected") };
    match t.as_str() {
        "IFCBOOLEAN" => IfcValue::Bool(BoolValue(bo(&l[0]).into())),
        "IFCLABEL" => IfcValue::Label(LabelValue(st(&l[0]).into())),
        "IFCREAL" => IfcValue::Real(re(&l[0]).into()),
        "IFCIDENTIFIER" => IfcValue::Identifier(IdentifierValue(st(&l[0]).into())),
        _ => IfcValue::ThermalTransmittance(re(&l[0]).into()),
    }
}
macro_rules! opt_set { ($x:expr, $v:ident, $e:expr) => { match $v { Val::Omit => $x = None.into(), _ => $x = Some($e).into() } }; }

pub static EDITS: &[Ed] = &[
    Ed { kind: "Wall", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Wall>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "Wall", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Wall>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "Wall", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Wall>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "WallType", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WallType>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "WallType", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WallType>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "WallType", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WallType>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "Slab", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Slab>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "Slab", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Slab>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "Slab", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Slab>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "SlabType", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SlabType>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "SlabType", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SlabType>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "SlabType", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SlabType>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "Roof", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Roof>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "Roof", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Roof>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "Roof", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Roof>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "RoofType", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RoofType>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "RoofType", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RoofType>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "RoofType", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RoofType>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "Building", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Building>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "Building", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Building>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "Building", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Building>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "Storey", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Storey>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "Storey", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Storey>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "Storey", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Storey>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "Site", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Site>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "Site", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Site>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "Site", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Site>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "OpeningElement", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OpeningElement>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "OpeningElement", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OpeningElement>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "OpeningElement", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OpeningElement>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "Window", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "Window", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "Window", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "WindowType", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WindowType>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "WindowType", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WindowType>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "WindowType", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WindowType>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "Project", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Project>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "Project", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Project>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "Project", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Project>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "Space", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Space>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "Space", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Space>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "Space", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Space>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "SpaceType", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SpaceType>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "SpaceType", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SpaceType>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "SpaceType", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SpaceType>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "Door", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "Door", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "Door", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "DoorType", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DoorType>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "DoorType", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DoorType>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "DoorType", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DoorType>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "ShadingDevice", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShadingDevice>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "ShadingDevice", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShadingDevice>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "ShadingDevice", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShadingDevice>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "ShadingDeviceType", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShadingDeviceType>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "ShadingDeviceType", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShadingDeviceType>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "ShadingDeviceType", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShadingDeviceType>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "RelAggregates", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelAggregates>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "RelAggregates", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelAggregates>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "RelAggregates", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelAggregates>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "RelAssociatesMaterial", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelAssociatesMaterial>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "RelAssociatesMaterial", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelAssociatesMaterial>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "RelAssociatesMaterial", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelAssociatesMaterial>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "RelContainedInSpatialStructure", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelContainedInSpatialStructure>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "RelContainedInSpatialStructure", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelContainedInSpatialStructure>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "RelContainedInSpatialStructure", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelContainedInSpatialStructure>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "RelDeclares", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDeclares>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "RelDeclares", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDeclares>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "RelDeclares", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDeclares>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "RelDefinesByProperties", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDefinesByProperties>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "RelDefinesByProperties", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDefinesByProperties>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "RelDefinesByProperties", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDefinesByProperties>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "RelDefinesByType", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDefinesByType>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "RelDefinesByType", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDefinesByType>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "RelDefinesByType", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDefinesByType>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "RelFillsElement", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelFillsElement>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "RelFillsElement", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelFillsElement>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "RelFillsElement", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelFillsElement>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "RelVoidsElement", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelVoidsElement>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "RelVoidsElement", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelVoidsElement>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "RelVoidsElement", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelVoidsElement>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "PropertySet", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PropertySet>::new(Id(id))); opt_set!(x.root_mut().name, v, st(v).into()); } },
    Ed { kind: "PropertySet", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PropertySet>::new(Id(id))); opt_set!(x.root_mut().description, v, st(v).into()); } },
    Ed { kind: "PropertySet", field: "owner_history", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PropertySet>::new(Id(id))); opt_set!(x.root_mut().owner_history, v, TypedId::<OwnerHistory>::new(rf(v))); } },
    Ed { kind: "Wall", field: "tag", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Wall>::new(Id(id))); opt_set!(x.tag, v, st(v).into()); } },
    Ed { kind: "Wall", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Wall>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "Wall", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Wall>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "Wall", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Wall>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "Slab", field: "tag", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Slab>::new(Id(id))); opt_set!(x.tag, v, st(v).into()); } },
    Ed { kind: "Slab", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Slab>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "Slab", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Slab>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "Slab", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Slab>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "Roof", field: "tag", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Roof>::new(Id(id))); opt_set!(x.tag, v, st(v).into()); } },
    Ed { kind: "Roof", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Roof>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "Roof", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Roof>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "Roof", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Roof>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "OpeningElement", field: "tag", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OpeningElement>::new(Id(id))); opt_set!(x.tag, v, st(v).into()); } },
    Ed { kind: "OpeningElement", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OpeningElement>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "OpeningElement", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OpeningElement>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "OpeningElement", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OpeningElement>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "Window", field: "tag", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.tag, v, st(v).into()); } },
    Ed { kind: "Window", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "Window", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "Window", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "Door", field: "tag", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.tag, v, st(v).into()); } },
    Ed { kind: "Door", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "Door", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "Door", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "ShadingDevice", field: "tag", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShadingDevice>::new(Id(id))); opt_set!(x.tag, v, st(v).into()); } },
    Ed { kind: "ShadingDevice", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShadingDevice>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "ShadingDevice", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShadingDevice>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "ShadingDevice", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShadingDevice>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "Building", field: "long_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Building>::new(Id(id))); opt_set!(x.long_name, v, st(v).into()); } },
    Ed { kind: "Building", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Building>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "Building", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Building>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "Building", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Building>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "Building", field: "composition_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Building>::new(Id(id))); opt_set!(x.composition_type, v, var(all_composition_type_enum(), v)); } },
    Ed { kind: "Storey", field: "long_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Storey>::new(Id(id))); opt_set!(x.long_name, v, st(v).into()); } },
    Ed { kind: "Storey", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Storey>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "Storey", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Storey>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "Storey", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Storey>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "Storey", field: "composition_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Storey>::new(Id(id))); opt_set!(x.composition_type, v, var(all_composition_type_enum(), v)); } },
    Ed { kind: "Site", field: "long_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Site>::new(Id(id))); opt_set!(x.long_name, v, st(v).into()); } },
    Ed { kind: "Site", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Site>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "Site", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Site>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "Site", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Site>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "Site", field: "composition_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Site>::new(Id(id))); opt_set!(x.composition_type, v, var(all_composition_type_enum(), v)); } },
    Ed { kind: "Space", field: "long_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Space>::new(Id(id))); opt_set!(x.long_name, v, st(v).into()); } },
    Ed { kind: "Space", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Space>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "Space", field: "object_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Space>::new(Id(id))); opt_set!(x.object_placement, v, rf(v)); } },
    Ed { kind: "Space", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Space>::new(Id(id))); opt_set!(x.representation, v, TypedId::<ProductDefinitionShape>::new(rf(v))); } },
    Ed { kind: "Space", field: "composition_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Space>::new(Id(id))); opt_set!(x.composition_type, v, var(all_composition_type_enum(), v)); } },
    Ed { kind: "Slab", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Slab>::new(Id(id))); opt_set!(x.predefined_type, v, var(all_slab_type_enum(), v)); } },
    Ed { kind: "Roof", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Roof>::new(Id(id))); opt_set!(x.predefined_type, v, var(all_roof_type_enum(), v)); } },
    Ed { kind: "OpeningElement", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OpeningElement>::new(Id(id))); opt_set!(x.predefined_type, v, var(all_opening_element_type_enum(), v)); } },
    Ed { kind: "Window", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.predefined_type, v, var(all_window_type_enum(), v)); } },
    Ed { kind: "Door", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.predefined_type, v, var(all_door_type_enum(), v)); } },
    Ed { kind: "Space", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Space>::new(Id(id))); opt_set!(x.predefined_type, v, var(all_space_type_enum(), v)); } },
    Ed { kind: "WallType", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WallType>::new(Id(id))); x.predefined_type = var(all_wall_type_enum(), v); } },
    Ed { kind: "SlabType", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SlabType>::new(Id(id))); x.predefined_type = var(all_slab_type_enum(), v); } },
    Ed { kind: "RoofType", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RoofType>::new(Id(id))); x.predefined_type = var(all_roof_type_enum(), v); } },
    Ed { kind: "WindowType", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WindowType>::new(Id(id))); x.predefined_type = var(all_window_type_enum(), v); } },
    Ed { kind: "DoorType", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DoorType>::new(Id(id))); x.predefined_type = var(all_door_type_enum(), v); } },
    Ed { kind: "SpaceType", field: "predefined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SpaceType>::new(Id(id))); x.predefined_type = var(all_space_type_enum(), v); } },
    Ed { kind: "Window", field: "partitioning_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.partitioning_type, v, var(all_window_partitioning_type_enum(), v)); } },
    Ed { kind: "WindowType", field: "partitioning_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WindowType>::new(Id(id))); x.partitioning_type = var(all_window_partitioning_type_enum(), v); } },
    Ed { kind: "Door", field: "operation_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.operation_type, v, var(all_door_operation_type_enum(), v)); } },
    Ed { kind: "DoorType", field: "operation_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DoorType>::new(Id(id))); x.operation_type = var(all_door_operation_type_enum(), v); } },
    Ed { kind: "Window", field: "overall_height", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.overall_height, v, re(v).into()); } },
    Ed { kind: "Window", field: "overall_width", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.overall_width, v, re(v).into()); } },
    Ed { kind: "Door", field: "overall_height", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.overall_height, v, re(v).into()); } },
    Ed { kind: "Door", field: "overall_width", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.overall_width, v, re(v).into()); } },
    Ed { kind: "Window", field: "user_defining_partitioning_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Window>::new(Id(id))); opt_set!(x.user_defining_partitioning_type, v, st(v).into()); } },
    Ed { kind: "Door", field: "user_defining_operation_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Door>::new(Id(id))); opt_set!(x.user_defining_operation_type, v, st(v).into()); } },
    Ed { kind: "WindowType", field: "user_defined_partitioning_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WindowType>::new(Id(id))); opt_set!(x.user_defined_partitioning_type, v, st(v).into()); } },
    Ed { kind: "DoorType", field: "user_defined_operation_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DoorType>::new(Id(id))); opt_set!(x.user_defined_partitioning_type, v, st(v).into()); } },
    Ed { kind: "WindowType", field: "parameter_takes_precedence", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<WindowType>::new(Id(id))); opt_set!(x.parameter_takes_precedence, v, bo(v).into()); } },
    Ed { kind: "DoorType", field: "parameter_takes_precedence", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DoorType>::new(Id(id))); opt_set!(x.parameter_takes_precedence, v, bo(v).into()); } },
    Ed { kind: "Space", field: "elevation_with_flooring", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Space>::new(Id(id))); opt_set!(x.elevation_with_flooring, v, re(v).into()); } },
    Ed { kind: "SpaceType", field: "long_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SpaceType>::new(Id(id))); opt_set!(x.long_name, v, st(v).into()); } },
    Ed { kind: "Building", field: "elevation_of_ref_height", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Building>::new(Id(id))); opt_set!(x.elevation_of_ref_height, v, re(v).into()); } },
    Ed { kind: "Building", field: "elevation_of_terrain", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Building>::new(Id(id))); opt_set!(x.elevation_of_terrain, v, re(v).into()); } },
    Ed { kind: "Storey", field: "elevation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Storey>::new(Id(id))); opt_set!(x.elevation, v, re(v).into()); } },
    Ed { kind: "Site", field: "ref_elevation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Site>::new(Id(id))); opt_set!(x.ref_elevation, v, re(v).into()); } },
    Ed { kind: "Site", field: "land_title_number", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Site>::new(Id(id))); opt_set!(x.land_title_number, v, st(v).into()); } },
    Ed { kind: "Project", field: "object_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Project>::new(Id(id))); opt_set!(x.object_type, v, st(v).into()); } },
    Ed { kind: "Project", field: "long_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Project>::new(Id(id))); opt_set!(x.long_name, v, st(v).into()); } },
    Ed { kind: "Project", field: "phase", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Project>::new(Id(id))); opt_set!(x.phase, v, st(v).into()); } },
    Ed { kind: "ActorRole", field: "role", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ActorRole>::new(Id(id))); x.role = var(all_role(), v); } },
    Ed { kind: "ActorRole", field: "user_defined_role", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ActorRole>::new(Id(id))); opt_set!(x.user_defined_role, v, st(v).into()); } },
    Ed { kind: "ActorRole", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ActorRole>::new(Id(id))); opt_set!(x.description, v, st(v).into()); } },
    Ed { kind: "PostalAddress", field: "purpose", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PostalAddress>::new(Id(id))); opt_set!(x.purpose, v, st(v).into()); } },
    Ed { kind: "TelecomAddress", field: "purpose", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<TelecomAddress>::new(Id(id))); opt_set!(x.purpose, v, st(v).into()); } },
    Ed { kind: "PostalAddress", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PostalAddress>::new(Id(id))); opt_set!(x.description, v, st(v).into()); } },
    Ed { kind: "TelecomAddress", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<TelecomAddress>::new(Id(id))); opt_set!(x.description, v, st(v).into()); } },
    Ed { kind: "PostalAddress", field: "user_defined_purpose", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PostalAddress>::new(Id(id))); opt_set!(x.user_defined_purpose, v, st(v).into()); } },
    Ed { kind: "TelecomAddress", field: "user_defined_purpose", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<TelecomAddress>::new(Id(id))); opt_set!(x.user_defined_purpose, v, st(v).into()); } },
    Ed { kind: "PostalAddress", field: "internal_location", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PostalAddress>::new(Id(id))); opt_set!(x.internal_location, v, st(v).into()); } },
    Ed { kind: "PostalAddress", field: "postal_box", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PostalAddress>::new(Id(id))); opt_set!(x.postal_box, v, st(v).into()); } },
    Ed { kind: "PostalAddress", field: "region", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PostalAddress>::new(Id(id))); opt_set!(x.region, v, st(v).into()); } },
    Ed { kind: "PostalAddress", field: "postal_code", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PostalAddress>::new(Id(id))); opt_set!(x.postal_code, v, st(v).into()); } },
    Ed { kind: "PostalAddress", field: "country", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PostalAddress>::new(Id(id))); opt_set!(x.country, v, st(v).into()); } },
    Ed { kind: "PostalAddress", field: "address_lines", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PostalAddress>::new(Id(id))); { match v { Val::Omit => x.address_lines = None.into(), _ => { if let Some(l) = x.address_lines.custom_mut() { l.0 = li(v).iter().map(|x| st(x).into()).collect(); } else { return; } } } }; } },
    Ed { kind: "PostalAddress", field: "town", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PostalAddress>::new(Id(id))); { match v { Val::Omit => x.town = None.into(), _ => { if let Some(l) = x.town.custom_mut() { l.0 = li(v).iter().map(|x| st(x).into()).collect(); } else { return; } } } }; } },
    Ed { kind: "TelecomAddress", field: "pager_number", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<TelecomAddress>::new(Id(id))); opt_set!(x.pager_number, v, st(v).into()); } },
    Ed { kind: "TelecomAddress", field: "homepage_url", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<TelecomAddress>::new(Id(id))); opt_set!(x.homepage_url, v, st(v).into()); } },
    Ed { kind: "TelecomAddress", field: "telephone_numbers", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<TelecomAddress>::new(Id(id))); { match v { Val::Omit => x.telephone_numbers = None.into(), _ => { if let Some(l) = x.telephone_numbers.custom_mut() { l.0 = li(v).iter().map(|x| st(x).into()).collect(); } else { return; } } } }; } },
    Ed { kind: "TelecomAddress", field: "facsimile_numbers", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<TelecomAddress>::new(Id(id))); { match v { Val::Omit => x.facsimile_numbers = None.into(), _ => { if let Some(l) = x.facsimile_numbers.custom_mut() { l.0 = li(v).iter().map(|x| st(x).into()).collect(); } else { return; } } } }; } },
    Ed { kind: "TelecomAddress", field: "email_addresses", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<TelecomAddress>::new(Id(id))); { match v { Val::Omit => x.email_addresses = None.into(), _ => { if let Some(l) = x.email_addresses.custom_mut() { l.0 = li(v).iter().map(|x| st(x).into()).collect(); } else { return; } } } }; } },
    Ed { kind: "Application", field: "version", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Application>::new(Id(id))); x.version = st(v).into(); } },
    Ed { kind: "Application", field: "application_full_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Application>::new(Id(id))); x.application_full_name = st(v).into(); } },
    Ed { kind: "Application", field: "application_identifier", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Application>::new(Id(id))); x.application_identifier = st(v).into(); } },
    Ed { kind: "Application", field: "application_developer", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Application>::new(Id(id))); x.application_developer = TypedId::<Organization>::new(rf(v)); } },
    Ed { kind: "Organization", field: "id", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Organization>::new(Id(id))); opt_set!(x.id, v, st(v).into()); } },
    Ed { kind: "Organization", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Organization>::new(Id(id))); x.name = st(v).into(); } },
    Ed { kind: "Organization", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Organization>::new(Id(id))); opt_set!(x.description, v, st(v).into()); } },
    Ed { kind: "Person", field: "id", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Person>::new(Id(id))); opt_set!(x.id, v, st(v).into()); } },
    Ed { kind: "Person", field: "family_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Person>::new(Id(id))); opt_set!(x.family_name, v, st(v).into()); } },
    Ed { kind: "Person", field: "given_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Person>::new(Id(id))); opt_set!(x.given_name, v, st(v).into()); } },
    Ed { kind: "Person", field: "middle_names", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Person>::new(Id(id))); { match v { Val::Omit => x.middle_names = None.into(), _ => { if let Some(l) = x.middle_names.custom_mut() { l.0 = li(v).iter().map(|x| st(x).into()).collect(); } else { return; } } } }; } },
    Ed { kind: "Person", field: "prefix_titles", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Person>::new(Id(id))); { match v { Val::Omit => x.prefix_titles = None.into(), _ => { if let Some(l) = x.prefix_titles.custom_mut() { l.0 = li(v).iter().map(|x| st(x).into()).collect(); } else { return; } } } }; } },
    Ed { kind: "Person", field: "suffix_titles", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Person>::new(Id(id))); { match v { Val::Omit => x.suffix_titles = None.into(), _ => { if let Some(l) = x.suffix_titles.custom_mut() { l.0 = li(v).iter().map(|x| st(x).into()).collect(); } else { return; } } } }; } },
    Ed { kind: "PersonAndOrganization", field: "the_person", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PersonAndOrganization>::new(Id(id))); x.the_person = TypedId::<Person>::new(rf(v)); } },
    Ed { kind: "PersonAndOrganization", field: "the_organization", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PersonAndOrganization>::new(Id(id))); x.the_organization = TypedId::<Organization>::new(rf(v)); } },
    Ed { kind: "OwnerHistory", field: "owning_user", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OwnerHistory>::new(Id(id))); opt_set!(x.owning_user, v, TypedId::<PersonAndOrganization>::new(rf(v))); } },
    Ed { kind: "OwnerHistory", field: "owning_application", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OwnerHistory>::new(Id(id))); opt_set!(x.owning_application, v, TypedId::<Application>::new(rf(v))); } },
    Ed { kind: "OwnerHistory", field: "last_modifying_user", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OwnerHistory>::new(Id(id))); opt_set!(x.last_modifying_user, v, TypedId::<PersonAndOrganization>::new(rf(v))); } },
    Ed { kind: "OwnerHistory", field: "last_modifying_application", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OwnerHistory>::new(Id(id))); opt_set!(x.last_modifying_application, v, TypedId::<Application>::new(rf(v))); } },
    Ed { kind: "OwnerHistory", field: "state", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OwnerHistory>::new(Id(id))); opt_set!(x.state, v, var(all_access_state(), v)); } },
    Ed { kind: "OwnerHistory", field: "change_action", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OwnerHistory>::new(Id(id))); x.change_action = var(all_change_action(), v); } },
    Ed { kind: "OwnerHistory", field: "creation_date", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OwnerHistory>::new(Id(id))); x.creation_date.0 = crate::gen::moment(it(v)); } },
    Ed { kind: "OwnerHistory", field: "last_modified_date", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<OwnerHistory>::new(Id(id))); opt_set!(x.last_modified_date, v, IfcTimestamp(crate::gen::moment(it(v)))); } },
    Ed { kind: "ArbitraryClosedProfileDef", field: "profile_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ArbitraryClosedProfileDef>::new(Id(id))); x.profile_type = var(all_profile_type(), v); } },
    Ed { kind: "ArbitraryClosedProfileDef", field: "profile_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ArbitraryClosedProfileDef>::new(Id(id))); opt_set!(x.profile_name, v, st(v).into()); } },
    Ed { kind: "ArbitraryClosedProfileDef", field: "outer_curve", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ArbitraryClosedProfileDef>::new(Id(id))); x.outer_curve = rf(v); } },
    Ed { kind: "Axis2D", field: "location", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Axis2D>::new(Id(id))); x.location = TypedId::<Point2D>::new(rf(v)); } },
    Ed { kind: "Axis2D", field: "local_x", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Axis2D>::new(Id(id))); opt_set!(x.local_x, v, TypedId::<Direction2D>::new(rf(v))); } },
    Ed { kind: "Axis3D", field: "location", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Axis3D>::new(Id(id))); x.location = TypedId::<Point3D>::new(rf(v)); } },
    Ed { kind: "Axis3D", field: "local_z", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Axis3D>::new(Id(id))); opt_set!(x.local_z, v, TypedId::<Direction3D>::new(rf(v))); } },
    Ed { kind: "Axis3D", field: "local_x", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Axis3D>::new(Id(id))); opt_set!(x.local_x, v, TypedId::<Direction3D>::new(rf(v))); } },
    Ed { kind: "ExtrudedAreaSolid", field: "depth", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ExtrudedAreaSolid>::new(Id(id))); x.depth = re(v).into(); } },
    Ed { kind: "ExtrudedAreaSolid", field: "swept_area", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ExtrudedAreaSolid>::new(Id(id))); x.swept_area = rf(v); } },
    Ed { kind: "ExtrudedAreaSolid", field: "position", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ExtrudedAreaSolid>::new(Id(id))); opt_set!(x.position, v, TypedId::<Axis3D>::new(rf(v))); } },
    Ed { kind: "ExtrudedAreaSolid", field: "extruded_direction", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ExtrudedAreaSolid>::new(Id(id))); x.extruded_direction = TypedId::<Direction3D>::new(rf(v)); } },
    Ed { kind: "IndexedPolyCurve", field: "segments", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<IndexedPolyCurve>::new(Id(id))); opt_set!(x.segments, v, st(v).into()); } },
    Ed { kind: "IndexedPolyCurve", field: "self_intersect", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<IndexedPolyCurve>::new(Id(id))); opt_set!(x.self_intersect, v, bo(v).into()); } },
    Ed { kind: "IndexedPolyCurve", field: "points", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<IndexedPolyCurve>::new(Id(id))); x.points = rf(v); } },
    Ed { kind: "PointList2D", field: "tag_list", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PointList2D>::new(Id(id))); { match v { Val::Omit => x.tag_list = None.into(), _ => { if let Some(l) = x.tag_list.custom_mut() { l.0 = li(v).iter().map(|x| st(x).into()).collect(); } else { return; } } } }; } },
    Ed { kind: "PointList3D", field: "tag_list", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PointList3D>::new(Id(id))); { match v { Val::Omit => x.tag_list = None.into(), _ => { if let Some(l) = x.tag_list.custom_mut() { l.0 = li(v).iter().map(|x| st(x).into()).collect(); } else { return; } } } }; } },
    Ed { kind: "PointList2D", field: "coord_list", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PointList2D>::new(Id(id))); x.coord_list.0 = li(v).iter().map(|p| bevy_math::DVec2::new(re(&li(p)[0]), re(&li(p)[1])).into()).collect(); } },
    Ed { kind: "PointList3D", field: "coord_list", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PointList3D>::new(Id(id))); x.coord_list.0 = li(v).iter().map(|p| bevy_math::DVec3::new(re(&li(p)[0]), re(&li(p)[1]), re(&li(p)[2])).into()).collect(); } },
    Ed { kind: "PolyLine", field: "points", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PolyLine>::new(Id(id))); x.points.0 = li(v).iter().map(rf).collect(); } },
    Ed { kind: "ProductDefinitionShape", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ProductDefinitionShape>::new(Id(id))); opt_set!(x.name, v, st(v).into()); } },
    Ed { kind: "ProductDefinitionShape", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ProductDefinitionShape>::new(Id(id))); opt_set!(x.description, v, st(v).into()); } },
    Ed { kind: "ProductDefinitionShape", field: "representations", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ProductDefinitionShape>::new(Id(id))); x.representations.0 = li(v).iter().map(|r| TypedId::<ShapeRepresentation>::new(rf(r))).collect(); } },
    Ed { kind: "RectangleProfileDef", field: "profile_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RectangleProfileDef>::new(Id(id))); x.profile_type = var(all_profile_type(), v); } },
    Ed { kind: "RectangleProfileDef", field: "profile_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RectangleProfileDef>::new(Id(id))); opt_set!(x.profile_name, v, st(v).into()); } },
    Ed { kind: "RectangleProfileDef", field: "position", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RectangleProfileDef>::new(Id(id))); opt_set!(x.position, v, rf(v)); } },
    Ed { kind: "RectangleProfileDef", field: "x_dim", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RectangleProfileDef>::new(Id(id))); x.x_dim = re(v).into(); } },
    Ed { kind: "RectangleProfileDef", field: "y_dim", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RectangleProfileDef>::new(Id(id))); x.y_dim = re(v).into(); } },
    Ed { kind: "GeometricRepresentationContext", field: "context_identifier", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationContext>::new(Id(id))); opt_set!(x.context_identifier, v, var(all_representation_identifier(), v)); } },
    Ed { kind: "GeometricRepresentationContext", field: "context_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationContext>::new(Id(id))); opt_set!(x.context_type, v, st(v).into()); } },
    Ed { kind: "GeometricRepresentationContext", field: "precision", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationContext>::new(Id(id))); opt_set!(x.precision, v, re(v).into()); } },
    Ed { kind: "GeometricRepresentationContext", field: "true_north", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationContext>::new(Id(id))); opt_set!(x.true_north, v, rf(v)); } },
    Ed { kind: "GeometricRepresentationSubContext", field: "context_identifier", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationSubContext>::new(Id(id))); opt_set!(x.context_identifier, v, var(all_representation_identifier(), v)); } },
    Ed { kind: "GeometricRepresentationSubContext", field: "context_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationSubContext>::new(Id(id))); opt_set!(x.context_type, v, st(v).into()); } },
    Ed { kind: "GeometricRepresentationSubContext", field: "precision", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationSubContext>::new(Id(id))); opt_set!(x.precision, v, re(v).into()); } },
    Ed { kind: "GeometricRepresentationSubContext", field: "true_north", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationSubContext>::new(Id(id))); opt_set!(x.true_north, v, rf(v)); } },
    Ed { kind: "GeometricRepresentationContext", field: "world_coord_system", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationContext>::new(Id(id))); x.world_coord_system = rf(v); } },
    Ed { kind: "GeometricRepresentationSubContext", field: "world_coord_system", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationSubContext>::new(Id(id))); opt_set!(x.world_coord_system, v, rf(v)); } },
    Ed { kind: "GeometricRepresentationSubContext", field: "parent_context", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationSubContext>::new(Id(id))); x.parent_context = TypedId::<GeometricRepresentationContext>::new(rf(v)); } },
    Ed { kind: "GeometricRepresentationSubContext", field: "target_scale", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationSubContext>::new(Id(id))); opt_set!(x.target_scale, v, re(v).into()); } },
    Ed { kind: "GeometricRepresentationSubContext", field: "target_view", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationSubContext>::new(Id(id))); x.target_view = var(all_geometric_projection(), v); } },
    Ed { kind: "GeometricRepresentationSubContext", field: "user_defined_target_view", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<GeometricRepresentationSubContext>::new(Id(id))); opt_set!(x.user_defined_target_view, v, st(v).into()); } },
    Ed { kind: "ShapeRepresentation", field: "context_of_items", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShapeRepresentation>::new(Id(id))); x.context_of_items = rf(v); } },
    Ed { kind: "ShapeRepresentation", field: "representation_identifier", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShapeRepresentation>::new(Id(id))); opt_set!(x.representation_identifier, v, var(all_representation_identifier(), v)); } },
    Ed { kind: "ShapeRepresentation", field: "representation_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShapeRepresentation>::new(Id(id))); opt_set!(x.representation_type, v, var(all_representation_type(), v)); } },
    Ed { kind: "ShapeRepresentation", field: "items", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ShapeRepresentation>::new(Id(id))); x.items.0 = li(v).iter().map(rf).collect(); } },
    Ed { kind: "LocalPlacement", field: "placement_rel_to", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<LocalPlacement>::new(Id(id))); opt_set!(x.placement_rel_to, v, TypedId::<LocalPlacement>::new(rf(v))); } },
    Ed { kind: "LocalPlacement", field: "relative_placement", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<LocalPlacement>::new(Id(id))); x.relative_placement = rf(v); } },
    Ed { kind: "CartesianTransformationOperator3DnonUniform", field: "scale_y", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<CartesianTransformationOperator3DnonUniform>::new(Id(id))); opt_set!(x.scale_y, v, re(v).into()); } },
    Ed { kind: "CartesianTransformationOperator3DnonUniform", field: "scale_z", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<CartesianTransformationOperator3DnonUniform>::new(Id(id))); opt_set!(x.scale_z, v, re(v).into()); } },
    Ed { kind: "RelAggregates", field: "relating_object", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelAggregates>::new(Id(id))); x.relating_object = rf(v); } },
    Ed { kind: "RelAggregates", field: "related_objects", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelAggregates>::new(Id(id))); x.related_objects.0 = li(v).iter().map(rf).collect(); } },
    Ed { kind: "RelAssociatesMaterial", field: "relating_material", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelAssociatesMaterial>::new(Id(id))); x.relating_material = rf(v); } },
    Ed { kind: "RelContainedInSpatialStructure", field: "related_elements", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelContainedInSpatialStructure>::new(Id(id))); x.related_elements.0 = li(v).iter().map(rf).collect(); } },
    Ed { kind: "RelContainedInSpatialStructure", field: "relating_structure", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelContainedInSpatialStructure>::new(Id(id))); x.relating_structure = rf(v); } },
    Ed { kind: "RelDeclares", field: "relating_context", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDeclares>::new(Id(id))); x.relating_context = TypedId::<Project>::new(rf(v)); } },
    Ed { kind: "RelDeclares", field: "related_definitions", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDeclares>::new(Id(id))); x.related_definitions.0 = li(v).iter().map(rf).collect(); } },
    Ed { kind: "RelDefinesByProperties", field: "related_objects", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDefinesByProperties>::new(Id(id))); x.related_objects.0 = li(v).iter().map(rf).collect(); } },
    Ed { kind: "RelDefinesByProperties", field: "relating_property_definition", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDefinesByProperties>::new(Id(id))); x.relating_property_definition = rf(v); } },
    Ed { kind: "RelDefinesByType", field: "related_objects", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDefinesByType>::new(Id(id))); x.related_objects.0 = li(v).iter().map(rf).collect(); } },
    Ed { kind: "RelDefinesByType", field: "relating_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelDefinesByType>::new(Id(id))); x.relating_type = rf(v); } },
    Ed { kind: "RelFillsElement", field: "related_building_element", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelFillsElement>::new(Id(id))); x.related_building_element = rf(v); } },
    Ed { kind: "RelVoidsElement", field: "relating_building_element", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelVoidsElement>::new(Id(id))); x.relating_building_element = rf(v); } },
    Ed { kind: "RelVoidsElement", field: "related_opening_element", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RelVoidsElement>::new(Id(id))); x.related_opening_element = TypedId::<OpeningElement>::new(rf(v)); } },
    Ed { kind: "MappedItem", field: "target", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MappedItem>::new(Id(id))); x.target = rf(v); } },
    Ed { kind: "MappedItem", field: "source", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MappedItem>::new(Id(id))); x.source = IdOr::Id(TypedId::<RepresentationMap>::new(rf(v))); } },
    Ed { kind: "RepresentationMap", field: "origin", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RepresentationMap>::new(Id(id))); x.origin = IdOr::Id(TypedId::<Axis3D>::new(rf(v))); } },
    Ed { kind: "RepresentationMap", field: "representation", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<RepresentationMap>::new(Id(id))); x.representation = IdOr::Id(TypedId::<ShapeRepresentation>::new(rf(v))); } },
    Ed { kind: "UnitAssigment", field: "units", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<UnitAssigment>::new(Id(id))); x.units.0 = li(v).iter().map(rf).collect(); } },
    Ed { kind: "ConversionBasedUnit", field: "conversion_factor", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<ConversionBasedUnit>::new(Id(id))); opt_set!(x.conversion_factor, v, IdOr::Id(TypedId::<MeasureWithUnit>::new(rf(v)))); } },
    Ed { kind: "SiUnit", field: "prefix", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SiUnit>::new(Id(id))); opt_set!(x.prefix, v, var(all_ifc_prefix(), v)); } },
    Ed { kind: "SiUnit", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<SiUnit>::new(Id(id))); x.name = var(all_ifc_unit_name(), v); } },
    Ed { kind: "DimensionalExponents", field: "length", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DimensionalExponents>::new(Id(id))); x.length = it(v) as i32; } },
    Ed { kind: "DimensionalExponents", field: "mass", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DimensionalExponents>::new(Id(id))); x.mass = it(v) as i32; } },
    Ed { kind: "DimensionalExponents", field: "time", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DimensionalExponents>::new(Id(id))); x.time = it(v) as i32; } },
    Ed { kind: "DimensionalExponents", field: "electric_current", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DimensionalExponents>::new(Id(id))); x.electric_current = it(v) as i32; } },
    Ed { kind: "DimensionalExponents", field: "thermodynamic_temperature", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DimensionalExponents>::new(Id(id))); x.thermodynamic_temperature = it(v) as i32; } },
    Ed { kind: "DimensionalExponents", field: "amount_of_substance", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DimensionalExponents>::new(Id(id))); x.amount_of_substance = it(v) as i32; } },
    Ed { kind: "DimensionalExponents", field: "luminouse_intensity", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DimensionalExponents>::new(Id(id))); x.luminouse_intensity = it(v) as i32; } },
    Ed { kind: "MeasureWithUnit", field: "unit", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MeasureWithUnit>::new(Id(id))); x.unit = TypedId::<SiUnit>::new(rf(v)); } },
    Ed { kind: "DerivedUnit", field: "elements", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DerivedUnit>::new(Id(id))); x.elements.0 = li(v).iter().map(|r| TypedId::<DerivedUnitElement>::new(rf(r))).collect(); } },
    Ed { kind: "DerivedUnit", field: "unit_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DerivedUnit>::new(Id(id))); x.unit_type = var(all_derived_unit_enum(), v); } },
    Ed { kind: "DerivedUnit", field: "user_defined_type", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DerivedUnit>::new(Id(id))); opt_set!(x.user_defined_type, v, st(v).into()); } },
    Ed { kind: "DerivedUnitElement", field: "unit", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DerivedUnitElement>::new(Id(id))); x.unit = TypedId::<SiUnit>::new(rf(v)); } },
    Ed { kind: "DerivedUnitElement", field: "exponent", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<DerivedUnitElement>::new(Id(id))); x.exponent = it(v).into(); } },
    Ed { kind: "MonetaryUnit", field: "currency", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MonetaryUnit>::new(Id(id))); x.currency = st(v).into(); } },
    Ed { kind: "Material", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Material>::new(Id(id))); opt_set!(x.material, v, st(v).into()); } },
    Ed { kind: "Material", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Material>::new(Id(id))); opt_set!(x.description, v, st(v).into()); } },
    Ed { kind: "Material", field: "category", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<Material>::new(Id(id))); opt_set!(x.category, v, st(v).into()); } },
    Ed { kind: "MaterialConstituent", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialConstituent>::new(Id(id))); opt_set!(x.name, v, st(v).into()); } },
    Ed { kind: "MaterialLayer", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayer>::new(Id(id))); opt_set!(x.name, v, st(v).into()); } },
    Ed { kind: "MaterialConstituent", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialConstituent>::new(Id(id))); opt_set!(x.description, v, st(v).into()); } },
    Ed { kind: "MaterialLayer", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayer>::new(Id(id))); opt_set!(x.description, v, st(v).into()); } },
    Ed { kind: "MaterialConstituent", field: "category", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialConstituent>::new(Id(id))); opt_set!(x.category, v, st(v).into()); } },
    Ed { kind: "MaterialLayer", field: "category", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayer>::new(Id(id))); opt_set!(x.category, v, st(v).into()); } },
    Ed { kind: "MaterialConstituent", field: "material", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialConstituent>::new(Id(id))); x.material = TypedId::<Material>::new(rf(v)); } },
    Ed { kind: "MaterialConstituent", field: "fraction", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialConstituent>::new(Id(id))); opt_set!(x.fraction, v, re(v).into()); } },
    Ed { kind: "MaterialConstituentSet", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialConstituentSet>::new(Id(id))); opt_set!(x.name, v, st(v).into()); } },
    Ed { kind: "MaterialConstituentSet", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialConstituentSet>::new(Id(id))); opt_set!(x.description, v, st(v).into()); } },
    Ed { kind: "MaterialConstituentSet", field: "material_constituents", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialConstituentSet>::new(Id(id))); x.material_constituents.0 = li(v).iter().map(|r| TypedId::<MaterialConstituent>::new(rf(r))).collect(); } },
    Ed { kind: "MaterialLayer", field: "material", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayer>::new(Id(id))); opt_set!(x.material, v, TypedId::<Material>::new(rf(v))); } },
    Ed { kind: "MaterialLayer", field: "layer_thickness", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayer>::new(Id(id))); x.layer_thickness = re(v).into(); } },
    Ed { kind: "MaterialLayer", field: "is_ventilated", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayer>::new(Id(id))); x.is_ventilated = bo(v).into(); } },
    Ed { kind: "MaterialLayer", field: "priority", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayer>::new(Id(id))); opt_set!(x.priority, v, it(v).into()); } },
    Ed { kind: "MaterialLayerSet", field: "material_layers", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayerSet>::new(Id(id))); x.material_layers.0 = li(v).iter().map(|r| TypedId::<MaterialLayer>::new(rf(r))).collect(); } },
    Ed { kind: "MaterialLayerSet", field: "layer_set_name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayerSet>::new(Id(id))); opt_set!(x.layer_set_name, v, st(v).into()); } },
    Ed { kind: "MaterialLayerSet", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayerSet>::new(Id(id))); opt_set!(x.description, v, st(v).into()); } },
    Ed { kind: "MaterialLayerSetUsage", field: "layer_set_direction", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayerSetUsage>::new(Id(id))); x.layer_set_direction = var(all_layer_set_direction_enum(), v); } },
    Ed { kind: "MaterialLayerSetUsage", field: "direction_sense", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayerSetUsage>::new(Id(id))); x.direction_sense = var(all_direction_sense_enum(), v); } },
    Ed { kind: "MaterialLayerSetUsage", field: "offset_from_reference_line", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayerSetUsage>::new(Id(id))); x.offset_from_reference_line = re(v).into(); } },
    Ed { kind: "MaterialLayerSetUsage", field: "reference_extent", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<MaterialLayerSetUsage>::new(Id(id))); opt_set!(x.reference_extent, v, re(v).into()); } },
    Ed { kind: "PropertySet", field: "properties", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PropertySet>::new(Id(id))); x.properties.0 = li(v).iter().map(|r| TypedId::<PropertySingleValue>::new(rf(r))).collect(); } },
    Ed { kind: "PropertySingleValue", field: "name", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PropertySingleValue>::new(Id(id))); opt_set!(x.property_mut().name, v, st(v).into()); } },
    Ed { kind: "PropertySingleValue", field: "description", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PropertySingleValue>::new(Id(id))); opt_set!(x.property_mut().description, v, st(v).into()); } },
    Ed { kind: "PropertySingleValue", field: "value", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PropertySingleValue>::new(Id(id))); x.value = ifc_value(v); } },
    Ed { kind: "PropertySingleValue", field: "unit", set: |ifc, id, v| { let x = ifc.data.get_mut(TypedId::<PropertySingleValue>::new(Id(id))); opt_set!(x.unit, v, rf(v)); } },
];

/// Sets a random editable attribute of the stored instance and of the model. Returns what was done.
pub fn edit(s: &mut Src, ifc: &mut IFC, i: &mut Inst, apos: bool) -> Option<String> {
    let e = &ents()[i.ent?];
    let c: Vec<&Ed> = EDITS.iter().filter(|d| d.kind == e.name).collect();
    if c.is_empty() { return None; }
    let d = *s.pick(&c);
    let n = e.fields.iter().position(|f| f.name == d.field).unwrap_or_else(|| panic!("harness: no field {}.{}", d.kind, d.field));
    let f = &e.fields[n];
    // an absent list of strings cannot be created from outside
    if matches!(f.k, K::L(K::Str)) && !matches!(i.vals[n], Val::List(_)) { return None; }
    let v = if f.opt && s.chance(1, 4) { Val::Omit } else { new_val(s, &f.k, apos) };
    (d.set)(ifc, i.id as usize, &v);
    i.vals[n] = v.clone();
    Some(format!("{}:={}", d.field, v.show()))
}
/// a random value; references are arbitrary numbers
pub fn new_val(s: &mut Src, k: &K, apos: bool) -> Val {
    match k {
        K::Str => Val::Str(text(s, apos)),
        K::SEn(t) => Val::Str(s.pick(t).to_string()), K::En(t) => Val::Enum(s.pick(t).to_string()),
        K::Real => Val::Real(real(s)), K::Int => Val::Int(int(s) as i128), K::Int32 => Val::Int((int(s) as i32) as i128),
        K::Bool => Val::Enum(["T", "F"][s.u(2)].into()), K::Ts => Val::Int(timestamp(s) as i128), K::Guid => Val::Str(guid(s)),
        K::Ref(_) | K::Weak(_) => Val::Ref(1 + s.below(10_000)),
        K::L(inner) => { let n = if matches!(inner, K::L(_)) { s.len(0, 5) } else { s.many(0, 5, 200) }; Val::List((0..n).map(|_| new_val(s, inner, apos)).collect()) }
        K::V2 => Val::List((0..2).map(|_| Val::Real(real(s))).collect()), K::V3 => Val::List((0..3).map(|_| Val::Real(real(s))).collect()),
        K::Dim => Val::Int(1 + s.u(3) as i128),
        K::Value => { let v = value(s, apos); if let Val::Typed(t, l) = &v { if t == "IFCBOOLEAN" && l[0] == Val::Enum("U".into()) { return Val::Typed(t.clone(), vec![Val::Enum("T".into())]); } } v }
        K::Pam => Val::Typed("IFCPLANEANGLEMEASURE".into(), vec![Val::Real(real(s))]),
    }
}
