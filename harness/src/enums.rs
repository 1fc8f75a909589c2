//! Frozen variant <-> literal tables (IFC schema spelling), independent of the crate's own strum tables.
#![allow(unreachable_patterns)]
use ifc_rs::prelude::*;

macro_rules! tab { ($all:ident, $tok:ident, $lit:ident, $t:ident, [$(($v:ident, $s:literal)),* $(,)?]) => {
  pub const $lit: &[&str] = &[$($s),*];
  #[allow(dead_code)] pub fn $all() -> Vec<($t, &'static str)> { vec![$(($t::$v, $s)),*] }
  #[allow(dead_code)] pub fn $tok(x: &$t) -> &'static str { match x { $($t::$v => $s,)* _ => "<unknown variant>" } }
} }

tab!(all_access_state, tok_access_state, ACCESS_STATE, AccessState, [(ReadWrite, "READWRITE"), (ReadOnly, "READONLY"), (Locked, "LOCKED"), (ReadWriteLocked, "READWRITELOCKED"), (ReadOnlyLocked, "READONLYLOCKED")]);
tab!(all_change_action, tok_change_action, CHANGE_ACTION, ChangeAction, [(NoChange, "NOCHANGE"), (Modified, "MODIFIED"), (Added, "ADDED"), (Deleted, "DELETED"), (ModifiedAdded, "MODIFIEDADDED"), (ModifiedDeleted, "MODIFIEDDELETED")]);
tab!(all_composition_type_enum, tok_composition_type_enum, COMPOSITION_TYPE_ENUM, CompositionTypeEnum, [(Comples, "COMPLEX"), (Element, "ELEMENT"), (Partial, "PARTIAL")]);
pub const CONVERSION_UNIT_NAME: &[&str] = &["DEGREE", "INCH", "FOOT", "YARD", "MILE", "SQUARE INCH", "SQUARE FOOT", "SQUARE YARD", "ACRE", "SQUARE MILE", "CUBIC INCH", "CUBIC FOOT", "CUBIC YARD", "LITRE", "FLUID OUNCE UK", "FLUID OUNCE US", "PINT UK", "PINT US", "GALLON UK", "GALLON US", "OUNCE", "POUND", "TON UK", "TON US", "LBF", "KIP", "PSI", "KSI", "MINUTE", "HOUR", "DAY", "BTU"];
tab!(all_derived_unit_enum, tok_derived_unit_enum, DERIVED_UNIT_ENUM, DerivedUnitEnum, [(ANGULARVELOCITYUNIT, "ANGULARVELOCITYUNIT"), (AREADENSITYUNIT, "AREADENSITYUNIT"), (COMPOUNDPLANEANGLEUNIT, "COMPOUNDPLANEANGLEUNIT"), (DYNAMICVISCOSITYUNIT, "DYNAMICVISCOSITYUNIT"), (HEATFLUXDENSITYUNIT, "HEATFLUXDENSITYUNIT"), (INTEGERCOUNTRATEUNIT, "INTEGERCOUNTRATEUNIT"), (ISOTHERMALMOISTURECAPACITYUNIT, "ISOTHERMALMOISTURECAPACITYUNIT"), (KINEMATICVISCOSITYUNIT, "KINEMATICVISCOSITYUNIT"), (LINEARVELOCITYUNIT, "LINEARVELOCITYUNIT"), (MASSDENSITYUNIT, "MASSDENSITYUNIT"), (MASSFLOWRATEUNIT, "MASSFLOWRATEUNIT"), (MOISTUREDIFFUSIVITYUNIT, "MOISTUREDIFFUSIVITYUNIT"), (MOLECULARWEIGHTUNIT, "MOLECULARWEIGHTUNIT"), (SPECIFICHEATCAPACITYUNIT, "SPECIFICHEATCAPACITYUNIT"), (THERMALADMITTANCEUNIT, "THERMALADMITTANCEUNIT"), (THERMALCONDUCTANCEUNIT, "THERMALCONDUCTANCEUNIT"), (THERMALRESISTANCEUNIT, "THERMALRESISTANCEUNIT"), (THERMALTRANSMITTANCEUNIT, "THERMALTRANSMITTANCEUNIT"), (VAPORPERMEABILITYUNIT, "VAPORPERMEABILITYUNIT"), (VOLUMETRICFLOWRATEUNIT, "VOLUMETRICFLOWRATEUNIT"), (ROTATIONALFREQUENCYUNIT, "ROTATIONALFREQUENCYUNIT"), (TORQUEUNIT, "TORQUEUNIT"), (MOMENTOFINERTIAUNIT, "MOMENTOFINERTIAUNIT"), (LINEARMOMENTUNIT, "LINEARMOMENTUNIT"), (LINEARFORCEUNIT, "LINEARFORCEUNIT"), (PLANARFORCEUNIT, "PLANARFORCEUNIT"), (MODULUSOFELASTICITYUNIT, "MODULUSOFELASTICITYUNIT"), (SHEARMODULUSUNIT, "SHEARMODULUSUNIT"), (LINEARSTIFFNESSUNIT, "LINEARSTIFFNESSUNIT"), (ROTATIONALSTIFFNESSUNIT, "ROTATIONALSTIFFNESSUNIT"), (MODULUSOFSUBGRADEREACTIONUNIT, "MODULUSOFSUBGRADEREACTIONUNIT"), (ACCELERATIONUNIT, "ACCELERATIONUNIT"), (CURVATUREUNIT, "CURVATUREUNIT"), (IONCONCENTRATIONUNIT, "IONCONCENTRATIONUNIT"), (LUMINOUSINTENSITYDISTRIBUTIONUNIT, "LUMINOUSINTENSITYDISTRIBUTIONUNIT"), (MASSPERLENGTHUNIT, "MASSPERLENGTHUNIT"), (MODULUSOFLINEARSUBGRADEREACTIONUNIT, "MODULUSOFLINEARSUBGRADEREACTIONUNIT"), (MODULUSOFROTATIONALSUBGRADEREACTIONUNIT, "MODULUSOFROTATIONALSUBGRADEREACTIONUNIT"), (PHUNIT, "PHUNIT"), (ROTATIONALMASSUNIT, "ROTATIONALMASSUNIT"), (SECTIONAREAINTEGRALUNIT, "SECTIONAREAINTEGRALUNIT"), (SECTIONMODULUSUNIT, "SECTIONMODULUSUNIT"), (SOUNDPOWERLEVELUNIT, "SOUNDPOWERLEVELUNIT"), (SOUNDPOWERUNIT, "SOUNDPOWERUNIT"), (SOUNDPRESSURELEVELUNIT, "SOUNDPRESSURELEVELUNIT"), (SOUNDPRESSUREUNIT, "SOUNDPRESSUREUNIT"), (TEMPERATUREGRADIENTUNIT, "TEMPERATUREGRADIENTUNIT"), (TEMPERATURERATEOFCHANGEUNIT, "TEMPERATURERATEOFCHANGEUNIT"), (THERMALEXPANSIONCOEFFICIENTUNIT, "THERMALEXPANSIONCOEFFICIENTUNIT"), (WARPINGCONSTANTUNIT, "WARPINGCONSTANTUNIT"), (WARPINGMOMENTUNIT, "WARPINGMOMENTUNIT"), (USERDEFINED, "USERDEFINED")]);
tab!(all_dimension_count, tok_dimension_count, DIMENSION_COUNT, DimensionCount, [(One, "1"), (Two, "2"), (Three, "3")]);
tab!(all_direction_sense_enum, tok_direction_sense_enum, DIRECTION_SENSE_ENUM, DirectionSenseEnum, [(Positive, "POSITIVE"), (Negative, "NEGATIVE")]);
tab!(all_door_operation_type_enum, tok_door_operation_type_enum, DOOR_OPERATION_TYPE_ENUM, DoorOperationTypeEnum, [(SingleSwingLeft, "SINGLE_SWING_LEFT"), (SingleSwingRight, "SINGLE_SWING_RIGHT"), (DoubleDoorSingleSwing, "DOUBLE_DOOR_SINGLE_SWING"), (DoubleSwingLeft, "DOUBLE_SWING_LEFT"), (DoubleSwingRight, "DOUBLE_SWING_RIGHT"), (DoubleDoorDoubleSwing, "DOUBLE_DOOR_DOUBLE_SWING"), (DoubleDoorSingleSwingOppositeLeft, "DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT"), (DoubleDoorSingleSwingOppositeRight, "DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT"), (SlidingToLeft, "SLIDING_TO_LEFT"), (SlidingToRight, "SLIDING_TO_RIGHT"), (DoubleDoorSliding, "DOUBLE_DOOR_SLIDING"), (FoldingToLeft, "FOLDING_TO_LEFT"), (FoldingToRight, "FOLDING_TO_RIGHT"), (DoubleDoorFolding, "DOUBLE_DOOR_FOLDING"), (Revolving, "REVOLVING"), (RollingUp, "ROLLINGUP"), (SwingFixedLeft, "SWING_FIXED_LEFT"), (SwingFixedRight, "SWING_FIXED_RIGHT"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
tab!(all_door_type_enum, tok_door_type_enum, DOOR_TYPE_ENUM, DoorTypeEnum, [(Door, "DOOR"), (Gate, "GATE"), (Trapdoor, "TRAPDOOR"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
tab!(all_geometric_projection, tok_geometric_projection, GEOMETRIC_PROJECTION, GeometricProjection, [(GraphView, "GRAPH_VIEW"), (SketchView, "SKETCH_VIEW"), (ModelView, "MODEL_VIEW"), (PlanView, "PLAN_VIEW"), (ReflectedPlanView, "REFLECTED_PLAN_VIEW"), (SectionView, "SECTION_VIEW"), (ElevationView, "ELEVATION_VIEW"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
tab!(all_ifc_prefix, tok_ifc_prefix, IFC_PREFIX, IfcPrefix, [(Exa, "EXA"), (Peta, "PETA"), (Tera, "TERA"), (Giga, "GIGA"), (Mega, "MEGA"), (Kilo, "KILO"), (Deca, "DECA"), (Deci, "DECI"), (Centi, "CENTI"), (Milli, "MILLI"), (Micro, "MICRO"), (Nano, "NANO"), (Pico, "PICO"), (Femto, "FEMTO"), (Atto, "ATTO")]);
tab!(all_ifc_unit_enum, tok_ifc_unit_enum, IFC_UNIT_ENUM, IfcUnitEnum, [(AbsorbedDoseUnit, "ABSORBEDDOSEUNIT"), (AmountOfSubstanceUnit, "AMOUNTOFSUBSTANCEUNIT"), (AreaUnit, "AREAUNIT"), (DoseEquivalentUnit, "DOSEEQUIVALENTUNIT"), (ElectricCapacitanceUnit, "ELECTRICCAPACITANCEUNIT"), (ElectricChargeUnit, "ELECTRICCHARGEUNIT"), (ElectricConductanceUnit, "ELECTRICCONDUCTANCEUNIT"), (ElectricCurrentUnit, "ELECTRICCURRENTUNIT"), (ElectricResistanceUnit, "ELECTRICRESISTANCEUNIT"), (ElectricVoltageUnit, "ELECTRICVOLTAGEUNIT"), (EnergyUnit, "ENERGYUNIT"), (ForceUnit, "FORCEUNIT"), (IlluminanceUnit, "ILLUMINANCEUNIT"), (InductanceUnit, "INDUCTANCEUNIT"), (LengthUnit, "LENGTHUNIT"), (LuminousFluxUnit, "LUMINOUSFLUXUNIT"), (LuminousIntensityUnit, "LUMINOUSINTENSITYUNIT"), (MagneticFluxDensityUnit, "MAGNETICFLUXDENSITYUNIT"), (MagneticFluxUnit, "MAGNETICFLUXUNIT"), (MassUnit, "MASSUNIT"), (PlaneAngleUnit, "PLANEANGLEUNIT"), (PowerUnit, "POWERUNIT"), (PressureUnit, "PRESSUREUNIT"), (RadioActivityUnit, "RADIOACTIVITYUNIT"), (SolidAngleUnit, "SOLIDANGLEUNIT"), (ThermoDynamicTemperatureUnit, "THERMODYNAMICTEMPERATUREUNIT"), (TimeUnit, "TIMEUNIT"), (VolumeUnit, "VOLUMEUNIT"), (UserDefined, "USERDEFINED")]);
tab!(all_ifc_unit_name, tok_ifc_unit_name, IFC_UNIT_NAME, IfcUnitName, [(Ampere, "AMPERE"), (Becquerel, "BECQUEREL"), (Candela, "CANDELA"), (Couloumb, "COULOMB"), (CubicMetre, "CUBIC_METRE"), (DegreeCelcius, "DEGREE_CELSIUS"), (Farad, "FARAD"), (Gram, "GRAM"), (Gray, "GRAY"), (Henry, "HENRY"), (Hertz, "HERTZ"), (Joule, "JOULE"), (Kelvin, "KELVIN"), (Lumen, "LUMEN"), (Lux, "LUX"), (Metre, "METRE"), (Mole, "MOLE"), (Newton, "NEWTON"), (Ohm, "OHM"), (Pascal, "PASCAL"), (Radian, "RADIAN"), (Second, "SECOND"), (Siemens, "SIEMENS"), (Sievert, "SIEVERT"), (SquareMetre, "SQUARE_METRE"), (Steradian, "STERADIAN"), (Tesla, "TESLA"), (Volt, "VOLT"), (Watt, "WATT"), (Weber, "WEBER")]);
tab!(all_layer_set_direction_enum, tok_layer_set_direction_enum, LAYER_SET_DIRECTION_ENUM, LayerSetDirectionEnum, [(Axis1, "AXIS1"), (Axis2, "AXIS2"), (Axis3, "AXIS3")]);
tab!(all_opening_element_type_enum, tok_opening_element_type_enum, OPENING_ELEMENT_TYPE_ENUM, OpeningElementTypeEnum, [(Opening, "OPENING"), (Recess, "RECESS"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
tab!(all_profile_type, tok_profile_type, PROFILE_TYPE, ProfileType, [(Curve, "CURVE"), (Area, "AREA")]);
tab!(all_representation_identifier, tok_representation_identifier, REPRESENTATION_IDENTIFIER, RepresentationIdentifier, [(CoG, "CoG"), (Box, "Box"), (Annotation, "Annotation"), (Axis, "Axis"), (FootPrint, "FootPrint"), (Profile, "Profile"), (Surface, "Surface"), (Reference, "Reference"), (Body, "Body"), (BodyFallBack, "Body-FallBack"), (Clearance, "Clearance"), (Lighting, "Lighting")]);
tab!(all_representation_type, tok_representation_type, REPRESENTATION_TYPE, RepresentationType, [(Point, "Point"), (PointCloud, "PointCloud"), (Curve, "Curve"), (Curve2D, "Curve2D"), (Curve3D, "Curve3D"), (Surface, "Surface"), (Surface2D, "Surface2D"), (Surface3D, "Surface3D"), (SectionedSurface, "SectionedSurface"), (FillArea, "FillArea"), (Text, "Text"), (AdvancedSurface, "AdvancedSurface"), (GeometricSet, "GeometricSet"), (GeometricCurveSet, "GeometricCurveSet"), (Annotation2D, "Annotation2D"), (SurfaceModel, "SurfaceModel"), (Tessellation, "Tessellation"), (Segment, "Segment"), (SolidModel, "SolidModel"), (SweptSolid, "SweptSolid"), (AdvancedSweptSolid, "AdvancedSweptSolid"), (Brep, "Brep"), (AdvancedBrep, "AdvancedBrep"), (CSG, "CSG"), (Clipping, "Clipping"), (BoundingBox, "BoundingBox"), (SectionedSpine, "SectionedSpine"), (LightSource, "LightSource"), (MappedRepresentation, "MappedRepresentation")]);
tab!(all_role, tok_role, ROLE, Role, [(Supplier, "SUPPLIER"), (Manufacturer, "MANUFACTURER"), (Contractor, "CONTRACTOR"), (Subcontractor, "SUBCONTRACTOR"), (Architect, "ARCHITECT"), (StructuralEngineer, "STRUCTURALENGINEER"), (CostEngineer, "COSTENGINEER"), (Clien, "CLIENT"), (BuildingOwner, "BUILDINGOWNER"), (BuildingOperator, "BUILDINGOPERATOR"), (MechanicalEngineer, "MECHANICALENGINEER"), (ElectricalEngineer, "ELECTRICALENGINEER"), (ProjectManager, "PROJECTMANAGER"), (FacilitiesManager, "FACILITIESMANAGER"), (CivilEngineer, "CIVILENGINEER"), (ComissionEngineer, "COMMISSIONINGENGINEER"), (Engineer, "ENGINEER"), (Owner, "OWNER"), (Consultant, "CONSULTANT"), (ConstructionManager, "CONSTRUCTIONMANAGER"), (FieldConstructionManager, "FIELDCONSTRUCTIONMANAGER"), (Reseller, "RESELLER"), (UserDefined, "USERDEFINED")]);
tab!(all_roof_type_enum, tok_roof_type_enum, ROOF_TYPE_ENUM, RoofTypeEnum, [(FlatRoof, "FLAT_ROOF"), (ShedRoof, "SHED_ROOF"), (GableRoof, "GABLE_ROOF"), (HipRoof, "HIP_ROOF"), (HippedGableRoof, "HIPPED_GABLE_ROOF"), (GambrelRoof, "GAMBREL_ROOF"), (MansardRoof, "MANSARD_ROOF"), (BarrelRoof, "BARREL_ROOF"), (RainbowRoof, "RAINBOW_ROOF"), (ButterflyRoof, "BUTTERFLY_ROOF"), (PavilionRoof, "PAVILION_ROOF"), (DomeRoof, "DOME_ROOF"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
tab!(all_shading_device_type_enum, tok_shading_device_type_enum, SHADING_DEVICE_TYPE_ENUM, ShadingDeviceTypeEnum, [(Awning, "AWNING"), (Parking, "JALOUSIE"), (Shutter, "SHUTTER"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
tab!(all_slab_type_enum, tok_slab_type_enum, SLAB_TYPE_ENUM, SlabTypeEnum, [(Floor, "FLOOR"), (Roof, "ROOF"), (Landing, "LANDING"), (BaseSlab, "BASESLAB"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
tab!(all_space_type_enum, tok_space_type_enum, SPACE_TYPE_ENUM, SpaceTypeEnum, [(Space, "SPACE"), (Parking, "PARKING"), (Gfa, "GFA"), (Internal, "INTERNAL"), (External, "EXTERNAL"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
tab!(all_wall_type_enum, tok_wall_type_enum, WALL_TYPE_ENUM, WallTypeEnum, [(Movable, "MOVABLE"), (Parapet, "PARAPET"), (Partitioning, "PARTITIONING"), (Plumbingwall, "PLUMBINGWALL"), (Shear, "SHEAR"), (Solidwall, "SOLIDWALL"), (Standard, "STANDARD"), (Polygonal, "POLYGONAL"), (Elementedwall, "ELEMENTEDWALL"), (Retainingwall, "RETAININGWALL"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
tab!(all_window_partitioning_type_enum, tok_window_partitioning_type_enum, WINDOW_PARTITIONING_TYPE_ENUM, WindowPartitioningTypeEnum, [(SinglePanel, "SINGLE_PANEL"), (DoublePanelVertical, "DOUBLE_PANEL_VERTICAL"), (DoublePanelHorizontal, "DOUBLE_PANEL_HORIZONTAL"), (TriplePanelVertical, "TRIPLE_PANEL_VERTICAL"), (TriplePanelHorizontal, "TRIPLE_PANEL_HORIZONTAL"), (TriplePanelBottom, "TRIPLE_PANEL_BOTTOM"), (TriplePanelTop, "TRIPLE_PANEL_TOP"), (TriplePanelLeft, "TRIPLE_PANEL_LEFT"), (TriplePanelRight, "TRIPLE_PANEL_RIGHT"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
tab!(all_window_type_enum, tok_window_type_enum, WINDOW_TYPE_ENUM, WindowTypeEnum, [(Window, "WINDOW"), (Skylight, "SKYLIGHT"), (Lightdome, "LIGHTDOME"), (UserDefined, "USERDEFINED"), (NotDefined, "NOTDEFINED")]);
