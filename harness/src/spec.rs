//! The record kinds and their attributes, written down independently of the code under test.
use ifc_rs::prelude::*;
use ifc_rs::IFC;

pub const DIMENSION_COUNT: &[&str] = &["1", "2", "3"];
pub const GEOMETRIC_PROJECTION: &[&str] = &[".GRAPH_VIEW.", ".SKETCH_VIEW.", ".MODEL_VIEW.", ".PLAN_VIEW.", ".REFLECTED_PLAN_VIEW.", ".SECTION_VIEW.", ".ELEVATION_VIEW.", ".USERDEFINED.", ".NOTDEFINED."];
pub const PROFILE_TYPE: &[&str] = &[".CURVE.", ".AREA."];
pub const REPRESENTATION_IDENTIFIER: &[&str] = &["'CoG'", "'Box'", "'Annotation'", "'Axis'", "'FootPrint'", "'Profile'", "'Surface'", "'Reference'", "'Body'", "'Body-FallBack'", "'Clearance'", "'Lighting'"];
pub const REPRESENTATION_TYPE: &[&str] = &["'Point'", "'PointCloud'", "'Curve'", "'Curve2D'", "'Curve3D'", "'Surface'", "'Surface2D'", "'Surface3D'", "'SectionedSurface'", "'FillArea'", "'Text'", "'AdvancedSurface'", "'GeometricSet'", "'GeometricCurveSet'", "'Annotation2D'", "'SurfaceModel'", "'Tessellation'", "'Segment'", "'SolidModel'", "'SweptSolid'", "'AdvancedSweptSolid'", "'Brep'", "'AdvancedBrep'", "'CSG'", "'Clipping'", "'BoundingBox'", "'SectionedSpine'", "'LightSource'", "'MappedRepresentation'"];
pub const DIRECTION_SENSE_ENUM: &[&str] = &[".POSITIVE.", ".NEGATIVE."];
pub const LAYER_SET_DIRECTION_ENUM: &[&str] = &[".AXIS1.", ".AXIS2.", ".AXIS3."];
pub const SHADING_DEVICE_TYPE_ENUM: &[&str] = &[".AWNING.", ".JALOUSIE.", ".SHUTTER.", ".USERDEFINED.", ".NOTDEFINED."];
pub const ACCESS_STATE: &[&str] = &[".READWRITE.", ".READONLY.", ".LOCKED.", ".READWRITELOCKED.", ".READONLYLOCKED."];
pub const ROLE: &[&str] = &[".SUPPLIER.", ".MANUFACTURER.", ".CONTRACTOR.", ".SUBCONTRACTOR.", ".ARCHITECT.", ".STRUCTURALENGINEER.", ".COSTENGINEER.", ".CLIENT.", ".BUILDINGOWNER.", ".BUILDINGOPERATOR.", ".MECHANICALENGINEER.", ".ELECTRICALENGINEER.", ".PROJECTMANAGER.", ".FACILITIESMANAGER.", ".CIVILENGINEER.", ".COMMISSIONINGENGINEER.", ".ENGINEER.", ".OWNER.", ".CONSULTANT.", ".CONSTRUCTIONMANAGER.", ".FIELDCONSTRUCTIONMANAGER.", ".RESELLER.", ".USERDEFINED."];
pub const CHANGE_ACTION: &[&str] = &[".NOCHANGE.", ".MODIFIED.", ".ADDED.", ".DELETED.", ".MODIFIEDADDED.", ".MODIFIEDDELETED."];
pub const DOOR_OPERATION_TYPE_ENUM: &[&str] = &[".SINGLE_SWING_LEFT.", ".SINGLE_SWING_RIGHT.", ".DOUBLE_DOOR_SINGLE_SWING.", ".DOUBLE_SWING_LEFT.", ".DOUBLE_SWING_RIGHT.", ".DOUBLE_DOOR_DOUBLE_SWING.", ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT.", ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT.", ".SLIDING_TO_LEFT.", ".SLIDING_TO_RIGHT.", ".DOUBLE_DOOR_SLIDING.", ".FOLDING_TO_LEFT.", ".FOLDING_TO_RIGHT.", ".DOUBLE_DOOR_FOLDING.", ".REVOLVING.", ".ROLLINGUP.", ".SWING_FIXED_LEFT.", ".SWING_FIXED_RIGHT.", ".USERDEFINED.", ".NOTDEFINED."];
pub const DOOR_TYPE_ENUM: &[&str] = &[".DOOR.", ".GATE.", ".TRAPDOOR.", ".USERDEFINED.", ".NOTDEFINED."];
pub const OPENING_ELEMENT_TYPE_ENUM: &[&str] = &[".OPENING.", ".RECESS.", ".USERDEFINED.", ".NOTDEFINED."];
pub const ROOF_TYPE_ENUM: &[&str] = &[".FLAT_ROOF.", ".SHED_ROOF.", ".GABLE_ROOF.", ".HIP_ROOF.", ".HIPPED_GABLE_ROOF.", ".GAMBREL_ROOF.", ".MANSARD_ROOF.", ".BARREL_ROOF.", ".RAINBOW_ROOF.", ".BUTTERFLY_ROOF.", ".PAVILION_ROOF.", ".DOME_ROOF.", ".USERDEFINED.", ".NOTDEFINED."];
pub const COMPOSITION_TYPE_ENUM: &[&str] = &[".COMPLEX.", ".ELEMENT.", ".PARTIAL."];
pub const SLAB_TYPE_ENUM: &[&str] = &[".FLOOR.", ".ROOF.", ".LANDING.", ".BASESLAB.", ".USERDEFINED.", ".NOTDEFINED."];
pub const SPACE_TYPE_ENUM: &[&str] = &[".SPACE.", ".PARKING.", ".GFA.", ".INTERNAL.", ".EXTERNAL.", ".USERDEFINED.", ".NOTDEFINED."];
pub const WALL_TYPE_ENUM: &[&str] = &[".MOVABLE.", ".PARAPET.", ".PARTITIONING.", ".PLUMBINGWALL.", ".SHEAR.", ".SOLIDWALL.", ".STANDARD.", ".POLYGONAL.", ".ELEMENTEDWALL.", ".RETAININGWALL.", ".USERDEFINED.", ".NOTDEFINED."];
pub const WINDOW_PARTITIONING_TYPE_ENUM: &[&str] = &[".SINGLE_PANEL.", ".DOUBLE_PANEL_VERTICAL.", ".DOUBLE_PANEL_HORIZONTAL.", ".TRIPLE_PANEL_VERTICAL.", ".TRIPLE_PANEL_HORIZONTAL.", ".TRIPLE_PANEL_BOTTOM.", ".TRIPLE_PANEL_TOP.", ".TRIPLE_PANEL_LEFT.", ".TRIPLE_PANEL_RIGHT.", ".USERDEFINED.", ".NOTDEFINED."];
pub const WINDOW_TYPE_ENUM: &[&str] = &[".WINDOW.", ".SKYLIGHT.", ".LIGHTDOME.", ".USERDEFINED.", ".NOTDEFINED."];
pub const CONVERSION_UNIT_NAME: &[&str] = &["'DEGREE'", "'INCH'", "'FOOT'", "'YARD'", "'MILE'", "'SQUARE INCH'", "'SQUARE FOOT'", "'SQUARE YARD'", "'ACRE'", "'SQUARE MILE'", "'CUBIC INCH'", "'CUBIC FOOT'", "'CUBIC YARD'", "'LITRE'", "'FLUID OUNCE UK'", "'FLUID OUNCE US'", "'PINT UK'", "'PINT US'", "'GALLON UK'", "'GALLON US'", "'OUNCE'", "'POUND'", "'TON UK'", "'TON US'", "'LBF'", "'KIP'", "'PSI'", "'KSI'", "'MINUTE'", "'HOUR'", "'DAY'", "'BTU'"];
pub const DERIVED_UNIT_ENUM: &[&str] = &[".ANGULARVELOCITYUNIT.", ".AREADENSITYUNIT.", ".COMPOUNDPLANEANGLEUNIT.", ".DYNAMICVISCOSITYUNIT.", ".HEATFLUXDENSITYUNIT.", ".INTEGERCOUNTRATEUNIT.", ".ISOTHERMALMOISTURECAPACITYUNIT.", ".KINEMATICVISCOSITYUNIT.", ".LINEARVELOCITYUNIT.", ".MASSDENSITYUNIT.", ".MASSFLOWRATEUNIT.", ".MOISTUREDIFFUSIVITYUNIT.", ".MOLECULARWEIGHTUNIT.", ".SPECIFICHEATCAPACITYUNIT.", ".THERMALADMITTANCEUNIT.", ".THERMALCONDUCTANCEUNIT.", ".THERMALRESISTANCEUNIT.", ".THERMALTRANSMITTANCEUNIT.", ".VAPORPERMEABILITYUNIT.", ".VOLUMETRICFLOWRATEUNIT.", ".ROTATIONALFREQUENCYUNIT.", ".TORQUEUNIT.", ".MOMENTOFINERTIAUNIT.", ".LINEARMOMENTUNIT.", ".LINEARFORCEUNIT.", ".PLANARFORCEUNIT.", ".MODULUSOFELASTICITYUNIT.", ".SHEARMODULUSUNIT.", ".LINEARSTIFFNESSUNIT.", ".ROTATIONALSTIFFNESSUNIT.", ".MODULUSOFSUBGRADEREACTIONUNIT.", ".ACCELERATIONUNIT.", ".CURVATUREUNIT.", ".IONCONCENTRATIONUNIT.", ".LUMINOUSINTENSITYDISTRIBUTIONUNIT.", ".MASSPERLENGTHUNIT.", ".MODULUSOFLINEARSUBGRADEREACTIONUNIT.", ".MODULUSOFROTATIONALSUBGRADEREACTIONUNIT.", ".PHUNIT.", ".ROTATIONALMASSUNIT.", ".SECTIONAREAINTEGRALUNIT.", ".SECTIONMODULUSUNIT.", ".SOUNDPOWERLEVELUNIT.", ".SOUNDPOWERUNIT.", ".SOUNDPRESSURELEVELUNIT.", ".SOUNDPRESSUREUNIT.", ".TEMPERATUREGRADIENTUNIT.", ".TEMPERATURERATEOFCHANGEUNIT.", ".THERMALEXPANSIONCOEFFICIENTUNIT.", ".WARPINGCONSTANTUNIT.", ".WARPINGMOMENTUNIT.", ".USERDEFINED."];
pub const IFC_UNIT_NAME: &[&str] = &[".AMPERE.", ".BECQUEREL.", ".CANDELA.", ".COULOMB.", ".CUBIC_METRE.", ".DEGREE_CELSIUS.", ".FARAD.", ".GRAM.", ".GRAY.", ".HENRY.", ".HERTZ.", ".JOULE.", ".KELVIN.", ".LUMEN.", ".LUX.", ".METRE.", ".MOLE.", ".NEWTON.", ".OHM.", ".PASCAL.", ".RADIAN.", ".SECOND.", ".SIEMENS.", ".SIEVERT.", ".SQUARE_METRE.", ".STERADIAN.", ".TESLA.", ".VOLT.", ".WATT.", ".WEBER."];
pub const IFC_PREFIX: &[&str] = &[".EXA.", ".PETA.", ".TERA.", ".GIGA.", ".MEGA.", ".KILO.", ".DECA.", ".DECI.", ".CENTI.", ".MILLI.", ".MICRO.", ".NANO.", ".PICO.", ".FEMTO.", ".ATTO."];
pub const IFC_UNIT_ENUM: &[&str] = &[".ABSORBEDDOSEUNIT.", ".AMOUNTOFSUBSTANCEUNIT.", ".AREAUNIT.", ".DOSEEQUIVALENTUNIT.", ".ELECTRICCAPACITANCEUNIT.", ".ELECTRICCHARGEUNIT.", ".ELECTRICCONDUCTANCEUNIT.", ".ELECTRICCURRENTUNIT.", ".ELECTRICRESISTANCEUNIT.", ".ELECTRICVOLTAGEUNIT.", ".ENERGYUNIT.", ".FORCEUNIT.", ".ILLUMINANCEUNIT.", ".INDUCTANCEUNIT.", ".LENGTHUNIT.", ".LUMINOUSFLUXUNIT.", ".LUMINOUSINTENSITYUNIT.", ".MAGNETICFLUXDENSITYUNIT.", ".MAGNETICFLUXUNIT.", ".MASSUNIT.", ".PLANEANGLEUNIT.", ".POWERUNIT.", ".PRESSUREUNIT.", ".RADIOACTIVITYUNIT.", ".SOLIDANGLEUNIT.", ".THERMODYNAMICTEMPERATUREUNIT.", ".TIMEUNIT.", ".VOLUMEUNIT.", ".USERDEFINED."];

/// attribute kinds; O = may also be `$` or `*`
#[derive(Clone, Copy)]
pub enum A {
    Guid,
    S, OS,
    R(&'static [&'static str]), OR(&'static [&'static str]),
    LR(&'static [&'static str]), OLR(&'static [&'static str]),
    /// reference that is not checked for its kind
    I, OI, LI, OLI,
    OLS,
    E(&'static [&'static str]), OE(&'static [&'static str]),
    X, OX,
    N, ON, OLN,
    B, OB,
    T, OT,
    V2, V3, LV2, LV3,
    Val,
}
use A::*;

pub struct K {
    pub kw: &'static str,
    pub attrs: &'static [A],
    pub is: fn(&IFC, usize) -> bool,
}

fn is<T: IfcType>(f: &IFC, id: usize) -> bool {
    f.data.find_all_of_type::<T>().any(|(i, _)| i.id().0 == id)
}

fn is_other(f: &IFC, id: usize) -> bool {
    !is::<Dummy>(f, id) && !KINDS.iter().any(|k| k.kw != "IFCMATERIALPROPERTIES" && (k.is)(f, id))
}

macro_rules! root { ($($x:expr),*) => { &[Guid, OR(&["IFCOWNERHISTORY"]), OS, OS, $($x),*] } }
macro_rules! object { ($($x:expr),*) => { root![OS, $($x),*] } }
const PLACE: &[&str] = &["IFCAXIS2PLACEMENT3D", "IFCCARTESIANPOINT3D", "IFCLOCALPLACEMENT"];
const AXES: &[&str] = &["IFCAXIS2PLACEMENT2D", "IFCAXIS2PLACEMENT3D"];
const ADDR: &[&str] = &["IFCTELECOMADDRESS", "IFCPOSTALADDRESS"];
const CONTAINED: &[&str] = &["IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY", "IFCOPENINGELEMENT", "IFCSLAB", "IFCROOF", "IFCWALL", "IFCWINDOW", "IFCDOOR"];
const CONTENTS: &[&str] = &["IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY", "IFCOPENINGELEMENT", "IFCSLAB", "IFCROOF", "IFCWALL", "IFCWINDOW", "IFCDOOR", "IFCSHADINGDEVICE"];
const PTS: &[&str] = &["IFCCARTESIANPOINT2D", "IFCCARTESIANPOINT3D"];
macro_rules! product { ($($x:expr),*) => { object![OR(PLACE), OR(&["IFCPRODUCTDEFINITIONSHAPE"]), $($x),*] } }
macro_rules! element { ($($x:expr),*) => { product![OS, $($x),*] } }
macro_rules! sse { ($($x:expr),*) => { product![OS, OE(COMPOSITION_TYPE_ENUM), $($x),*] } }
macro_rules! etype { ($($x:expr),*) => { root![OI, OLI, OLR(&["IFCREPRESENTATIONMAP"]), OS, OS, $($x),*] } }
macro_rules! k { ($kw:expr, $t:ty, $a:expr) => { K { kw: $kw, attrs: $a, is: is::<$t> } } }

pub const KINDS: &[K] = &[
    k!("IFCACTORROLE", ActorRole, &[E(ROLE), OS, OS]),
    k!("IFCPOSTALADDRESS", PostalAddress, &[OS, OS, OS, OS, OLS, OS, OLS, OS, OS, OS]),
    k!("IFCTELECOMADDRESS", TelecomAddress, &[OS, OS, OS, OLS, OLS, OS, OLS, OS]),
    k!("IFCAPPLICATION", Application, &[R(&["IFCORGANIZATION"]), S, S, S]),
    k!("IFCORGANIZATION", Organization, &[OS, S, OS, OLR(&["IFCACTORROLE"]), OLR(ADDR)]),
    k!("IFCOWNERHISTORY", OwnerHistory, &[OR(&["IFCPERSONANDORGANIZATION"]), OR(&["IFCAPPLICATION"]), OE(ACCESS_STATE), E(CHANGE_ACTION), OT, OR(&["IFCPERSONANDORGANIZATION"]), OR(&["IFCAPPLICATION"]), T]),
    k!("IFCPERSON", Person, &[OS, OS, OS, OLS, OLS, OLS, OLR(&["IFCACTORROLE"]), OLR(ADDR)]),
    k!("IFCPERSONANDORGANIZATION", PersonAndOrganization, &[R(&["IFCPERSON"]), R(&["IFCORGANIZATION"]), OLR(&["IFCACTORROLE"])]),
    k!("IFCWALL", Wall, element![OR(&["IFCWALLTYPE"])]),
    k!("IFCWALLTYPE", WallType, etype![E(WALL_TYPE_ENUM)]),
    k!("IFCSLAB", Slab, element![OE(SLAB_TYPE_ENUM)]),
    k!("IFCSLABTYPE", SlabType, etype![E(SLAB_TYPE_ENUM)]),
    k!("IFCROOF", Roof, element![OE(ROOF_TYPE_ENUM)]),
    k!("IFCROOFTYPE", RoofType, etype![E(ROOF_TYPE_ENUM)]),
    k!("IFCBUILDING", Building, sse![OX, OX, OR(&["IFCPOSTALADDRESS"])]),
    k!("IFCBUILDINGSTOREY", Storey, sse![OX]),
    k!("IFCSITE", Site, sse![OLN, OLN, OX, OS, OR(&["IFCPOSTALADDRESS"])]),
    k!("IFCOPENINGELEMENT", OpeningElement, element![OE(OPENING_ELEMENT_TYPE_ENUM)]),
    k!("IFCWINDOW", Window, element![OX, OX, OE(WINDOW_TYPE_ENUM), OE(WINDOW_PARTITIONING_TYPE_ENUM), OS]),
    k!("IFCWINDOWTYPE", WindowType, etype![E(WINDOW_TYPE_ENUM), E(WINDOW_PARTITIONING_TYPE_ENUM), OB, OS]),
    k!("IFCPROJECT", Project, root![OS, OS, OS, LR(&["IFCGEOMETRICREPRESENTATIONCONTEXT"]), OR(&["IFCUNITASSIGNMENT"])]),
    k!("IFCSPACE", Space, sse![OE(SPACE_TYPE_ENUM), OX]),
    k!("IFCSPACETYPE", SpaceType, etype![E(SPACE_TYPE_ENUM), OS]),
    k!("IFCDOOR", Door, element![OX, OX, OE(DOOR_TYPE_ENUM), OE(DOOR_OPERATION_TYPE_ENUM), OS]),
    k!("IFCDOORTYPE", DoorType, etype![E(DOOR_TYPE_ENUM), E(DOOR_OPERATION_TYPE_ENUM), OB, OS]),
    k!("IFCSHADINGDEVICE", ShadingDevice, element![OE(SHADING_DEVICE_TYPE_ENUM)]),
    k!("IFCSHADINGDEVICETYPE", ShadingDeviceType, etype![E(SHADING_DEVICE_TYPE_ENUM)]),
    // geometry
    k!("IFCAXIS2PLACEMENT2D", Axis2D, &[R(&["IFCCARTESIANPOINT2D"]), OR(&["IFCDIRECTION2D"])]),
    k!("IFCAXIS2PLACEMENT3D", Axis3D, &[R(&["IFCCARTESIANPOINT3D"]), OR(&["IFCDIRECTION3D"]), OR(&["IFCDIRECTION3D"])]),
    k!("IFCCARTESIANPOINT2D", Point2D, &[V2]),
    k!("IFCCARTESIANPOINT3D", Point3D, &[V3]),
    k!("IFCDIRECTION2D", Direction2D, &[V2]),
    k!("IFCDIRECTION3D", Direction3D, &[V3]),
    k!("IFCEXTRUDEDAREASOLID", ExtrudedAreaSolid, &[R(&["IFCRECTANGLEPROFILEDEF", "IFCARBITRARYCLOSEDPROFILEDEF"]), OR(&["IFCAXIS2PLACEMENT3D"]), R(&["IFCDIRECTION3D"]), X]),
    k!("IFCCARTESIANTRANSFORMATIONOPERATOR3D", CartesianTransformationOperator3D, &[OR(&["IFCDIRECTION3D"]), OR(&["IFCDIRECTION3D"]), OR(&["IFCCARTESIANPOINT3D"]), OX, OR(&["IFCDIRECTION3D"])]),
    k!("IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM", CartesianTransformationOperator3DnonUniform, &[OR(&["IFCDIRECTION3D"]), OR(&["IFCDIRECTION3D"]), OR(&["IFCCARTESIANPOINT3D"]), OX, OR(&["IFCDIRECTION3D"]), OX, OX]),
    k!("IFCGEOMETRICREPRESENTATIONCONTEXT", GeometricRepresentationContext, &[OE(REPRESENTATION_IDENTIFIER), OS, E(DIMENSION_COUNT), OX, R(AXES), OR(&["IFCDIRECTION2D", "IFCDIRECTION3D"])]),
    k!("IFCGEOMETRICREPRESENTATIONSUBCONTEXT", GeometricRepresentationSubContext, &[OE(REPRESENTATION_IDENTIFIER), OS, OE(DIMENSION_COUNT), OX, OR(AXES), OR(AXES), R(&["IFCGEOMETRICREPRESENTATIONCONTEXT"]), OX, E(GEOMETRIC_PROJECTION), OS]),
    k!("IFCLOCALPLACEMENT", LocalPlacement, &[OR(&["IFCLOCALPLACEMENT"]), R(AXES)]),
    k!("IFCPOLYLINE", PolyLine, &[LR(PTS)]),
    k!("IFCINDEXEDPOLYCURVE", IndexedPolyCurve, &[R(&["IFCCARTESIANPOINTLIST2D", "IFCCARTESIANPOINTLIST3D"]), OS, OB]),
    k!("IFCCARTESIANPOINTLIST2D", PointList2D, &[LV2, OLS]),
    k!("IFCCARTESIANPOINTLIST3D", PointList3D, &[LV3, OLS]),
    k!("IFCARBITRARYCLOSEDPROFILEDEF", ArbitraryClosedProfileDef, &[E(PROFILE_TYPE), OS, R(&["IFCINDEXEDPOLYCURVE", "IFCPOLYLINE"])]),
    k!("IFCRECTANGLEPROFILEDEF", RectangleProfileDef, &[E(PROFILE_TYPE), OS, OR(AXES), X, X]),
    k!("IFCPRODUCTDEFINITIONSHAPE", ProductDefinitionShape, &[OS, OS, LR(&["IFCSHAPEREPRESENTATION"])]),
    k!("IFCSHAPEREPRESENTATION", ShapeRepresentation, &[R(&["IFCGEOMETRICREPRESENTATIONSUBCONTEXT", "IFCGEOMETRICREPRESENTATIONCONTEXT"]), OE(REPRESENTATION_IDENTIFIER), OE(REPRESENTATION_TYPE), LR(&["IFCEXTRUDEDAREASOLID", "IFCPOLYLINE", "IFCMAPPEDITEM"])]),
    // relations
    k!("IFCRELAGGREGATES", RelAggregates, root![R(&["IFCPROJECT", "IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY"]), LR(&["IFCSITE", "IFCBUILDING", "IFCBUILDINGSTOREY", "IFCSPACE"])]),
    k!("IFCRELASSOCIATESMATERIAL", RelAssociatesMaterial, root![LI, R(&["IFCMATERIALCONSTITUENTSET", "IFCMATERIALLAYERSETUSAGE", "IFCMATERIALLAYERSET", "IFCMATERIAL"])]),
    k!("IFCRELCONTAINEDINSPATIALSTRUCTURE", RelContainedInSpatialStructure, root![LR(CONTENTS), R(CONTAINED)]),
    k!("IFCRELDECLARES", RelDeclares, root![R(&["IFCPROJECT"]), LI]),
    k!("IFCRELDEFINESBYPROPERTIES", RelDefinesByProperties, root![LI, I]),
    k!("IFCRELDEFINESBYTYPE", RelDefinesByType, root![LI, I]),
    k!("IFCRELFILLSELEMENT", RelFillsElement, root![R(&["IFCOPENINGELEMENT"]), R(&["IFCBUILDING", "IFCOPENINGELEMENT", "IFCSLAB", "IFCWALL", "IFCWINDOW", "IFCDOOR"])]),
    k!("IFCRELVOIDSELEMENT", RelVoidsElement, root![R(&["IFCBUILDING", "IFCOPENINGELEMENT", "IFCSLAB", "IFCWALL", "IFCWINDOW"]), R(&["IFCOPENINGELEMENT"])]),
    k!("IFCMAPPEDITEM", MappedItem, &[R(&["IFCREPRESENTATIONMAP"]), R(&["IFCCARTESIANTRANSFORMATIONOPERATOR3DNONUNIFORM", "IFCCARTESIANTRANSFORMATIONOPERATOR3D"])]),
    k!("IFCREPRESENTATIONMAP", RepresentationMap, &[R(&["IFCAXIS2PLACEMENT3D"]), R(&["IFCSHAPEREPRESENTATION"])]),
    // units
    k!("IFCUNITASSIGNMENT", UnitAssigment, &[LR(&["IFCSIUNIT", "IFCCONVERSIONBASEDUNIT", "IFCDERIVEDUNIT", "IFCMONETARYUNIT"])]),
    k!("IFCSIUNIT", SiUnit, &[OI, OE(IFC_UNIT_ENUM), OE(IFC_PREFIX), E(IFC_UNIT_NAME)]),
    k!("IFCCONVERSIONBASEDUNIT", ConversionBasedUnit, &[OI, OE(IFC_UNIT_ENUM), OE(CONVERSION_UNIT_NAME), OR(&["IFCMEASUREWITHUNIT"])]),
    k!("IFCDERIVEDUNIT", DerivedUnit, &[LR(&["IFCDERIVEDUNITELEMENT"]), E(DERIVED_UNIT_ENUM), OS]),
    k!("IFCDERIVEDUNITELEMENT", DerivedUnitElement, &[R(&["IFCSIUNIT"]), N]),
    k!("IFCDIMENSIONALEXPONENTS", DimensionalExponents, &[N, N, N, N, N, N, N]),
    k!("IFCMEASUREWITHUNIT", MeasureWithUnit, &[R(&["IFCPLANEANGLEMEASURE"]), R(&["IFCSIUNIT"])]),
    k!("IFCMONETARYUNIT", MonetaryUnit, &[S]),
    // materials
    k!("IFCMATERIAL", Material, &[OS, OS, OS]),
    k!("IFCMATERIALCONSTITUENT", MaterialConstituent, &[OS, OS, R(&["IFCMATERIAL"]), OX, OS]),
    k!("IFCMATERIALCONSTITUENTSET", MaterialConstituentSet, &[OS, OS, LR(&["IFCMATERIALCONSTITUENT"])]),
    k!("IFCMATERIALLAYER", MaterialLayer, &[OR(&["IFCMATERIAL"]), X, B, OS, OS, OS, ON]),
    k!("IFCMATERIALLAYERSET", MaterialLayerSet, &[LR(&["IFCMATERIALLAYER"]), OS, OS]),
    k!("IFCMATERIALLAYERSETUSAGE", MaterialLayerSetUsage, &[R(&["IFCMATERIALLAYERSET"]), E(LAYER_SET_DIRECTION_ENUM), E(DIRECTION_SENSE_ENUM), X, OX]),
    // properties
    // the type is not exported: recognised as the typed record that is none of the others
    K { kw: "IFCMATERIALPROPERTIES", attrs: &[OS, OS, LI, R(&["IFCMATERIAL"])], is: is_other },
    k!("IFCPROPERTYSET", PropertySet, root![LR(&["IFCPROPERTYSINGLEVALUE"])]),
    k!("IFCPROPERTYSINGLEVALUE", PropertySingleValue, &[OS, OS, Val, OI]),
];

/// the keyword as written in a file (points and directions of both dimensions share theirs)
pub fn keyword(k: &K) -> &'static str {
    match k.kw {
        "IFCCARTESIANPOINT2D" | "IFCCARTESIANPOINT3D" => "IFCCARTESIANPOINT",
        "IFCDIRECTION2D" | "IFCDIRECTION3D" => "IFCDIRECTION",
        x => x,
    }
}
pub fn kind(name: &str) -> &'static K {
    KINDS.iter().find(|k| k.kw == name).expect("kind")
}
pub fn optional(a: A) -> bool {
    matches!(a, OS | OR(_) | OLR(_) | OI | OLI | OLS | OE(_) | OX | ON | OLN | OB | OT)
}
/// reference attributes whose kind is checked
pub fn refs(a: A) -> Option<&'static [&'static str]> {
    match a {
        R(k) | OR(k) | LR(k) | OLR(k) => Some(k),
        _ => None,
    }
}
pub fn is_list(a: A) -> bool {
    matches!(a, LR(_) | OLR(_) | LI | OLI | OLS | OLN | LV2 | LV3)
}
/// a plain concrete value of an attribute; references point at `#<rf>`
pub fn plain(a: A, rf: &str) -> String {
    match a {
        Guid => "'3WC05JoifTTxWgBa7n_3t1'".into(),
        S => "'t'".into(),
        R(_) | I => format!("#{rf}"),
        LR(_) | LI => format!("(#{rf})"),
        E(w) => w[0].into(),
        X => "1.5".into(),
        N => "2".into(),
        B => ".TRUE.".into(),
        T => "7".into(),
        V2 => "(1.,2.)".into(),
        V3 => "(1.,2.,3.)".into(),
        LV2 => "((1.,2.))".into(),
        LV3 => "((1.,2.,3.))".into(),
        Val => "IFCBOOLEAN(.TRUE.)".into(),
        _ => "$".into(),
    }
}
/// a record of the kind with every optional attribute omitted
pub fn minimal(k: &K, rf: &str) -> String {
    let mut s = String::from(keyword(k));
    s.push('(');
    for (i, a) in k.attrs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&plain(*a, rf));
    }
    s.push_str(");");
    s
}
