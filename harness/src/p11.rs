use crate::common::*;
use crate::spec::{self, *};

pub fn jobs(j: &mut Jobs) {
    j.1 = "P11";
    job!(j, h_enum_words, 0..enums().len());
    job!(j, h_enum_unknown, 0..enums().len());
    job!(j, h_enum_api, 0..1);
    job!(j, h_enum_near, 0..enums().len());
}

/// every enumeration attribute of every record kind
fn enums() -> Vec<(&'static K, usize)> {
    let mut v = vec![];
    for k in KINDS {
        for (i, a) in k.attrs.iter().enumerate() {
            if matches!(a, A::E(_) | A::OE(_)) {
                v.push((k, i));
            }
        }
    }
    v
}
fn words(k: &K, i: usize) -> &'static [&'static str] {
    match k.attrs[i] {
        A::E(w) | A::OE(w) => w,
        _ => &[],
    }
}
/// the kind's minimal record with attribute `at` replaced
pub fn with(k: &K, at: usize, v: &str) -> String {
    let mut s = String::from(keyword(k));
    s.push('(');
    for (i, a) in k.attrs.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        if i == at {
            s.push_str(v);
        } else {
            s.push_str(&plain(*a, "9"));
        }
    }
    s.push_str(");");
    s
}
const DUMMY: &str = "#9= IFCNOSUCHTHING(1);\n";

/// two records carrying two of the keywords: each keeps its own
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_enum_words(n: u64) {
    let (k, i) = enums()[n as usize];
    let w = words(k, i);
    let a = w[choice(w.len() as u64) as usize];
    let b = w[choice(if w.len() > 16 { 2 } else { w.len() as u64 }) as usize];
    let d = format!("#1= {}\n#2= {}\n{}", with(k, i, a), with(k, i, b), DUMMY);
    match load(&d) {
        None => check(false, "enum.rejected"),
        Some(f) => {
            check((k.is)(&f, 1) && (k.is)(&f, 2), "enum.kind");
            eq(&f.data.to_string(), &data(&d), "enum.changed");
        }
    }
}

const LETTERS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789abcdefghijklmnopqrstuvwxyz -";

/// a word of any letters which is no keyword is not a value
fn refuse(k: &'static K, i: usize, v: &str) {
    for w in words(k, i) {
        sym::assume(v.as_bytes() != w.as_bytes());
    }
    let d = format!("#1= {}\n{}", with(k, i, v), DUMMY);
    match load(&d) {
        None => check(false, "enum.unknown.rejected"),
        Some(f) => {
            // the count of a dimension may be any number: it is read as "inherited"
            check(!(k.is)(&f, 1), "enum.unknown.accepted");
            eq(&f.data.to_string(), &data(&d), "enum.unknown.changed");
        }
    }
}
fn quote(k: &K, i: usize) -> &'static str {
    match words(k, i)[0].as_bytes()[0] {
        b'\'' => "'",
        b'.' => ".",
        _ => "",
    }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn h_enum_unknown(n: u64) {
    let (k, i) = enums()[n as usize];
    let q = quote(k, i);
    let len = if q.is_empty() { 1 + choice(3) } else { 1 + choice(16) };
    let set: &[u8] = if q.is_empty() { &LETTERS[..27] } else { &LETTERS[..63] };
    let v = format!("{q}{}{q}", sym::text(len as usize, set));
    refuse(k, i, &v);
}

/// a keyword with one letter replaced, removed or added is not a value
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_enum_near(n: u64) {
    let (k, i) = enums()[n as usize];
    let w = words(k, i);
    if quote(k, i).is_empty() {
        sym::cover("enum.near");
        return;
    }
    let a = w[choice(w.len() as u64) as usize];
    let at = 1 + choice(a.len() as u64 - 2) as usize;
    let mut v = String::from(&a[..at]);
    match choice(3) {
        0 => {
            v.push_str(&sym::text(1, LETTERS));
            v.push_str(&a[at + 1..]);
        }
        1 => {
            if a.len() == 3 {
                return;
            }
            v.push_str(&a[at + 1..]);
        }
        _ => {
            v.push_str(&sym::text(1, LETTERS));
            v.push_str(&a[at..]);
        }
    }
    refuse(k, i, &v);
}

/// each value of the API is written with its keyword
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_enum_api(_: u64) {
    let mut n = 0u64;
    let pick = sym::u64_in(0, COUNT - 1);
    macro_rules! v {
        ($v:expr, $w:expr) => {
            if pick == n {
                eq(&$v.to_string(), $w, "enum.api");
            }
            n += 1;
        };
    }
    // DimensionCount
    v!(DimensionCount::One, "1"); v!(DimensionCount::Two, "2"); v!(DimensionCount::Three, "3");
    // GeometricProjection
    v!(GeometricProjection::GraphView, ".GRAPH_VIEW."); v!(GeometricProjection::SketchView, ".SKETCH_VIEW."); v!(GeometricProjection::ModelView, ".MODEL_VIEW."); v!(GeometricProjection::PlanView, ".PLAN_VIEW."); v!(GeometricProjection::ReflectedPlanView, ".REFLECTED_PLAN_VIEW."); v!(GeometricProjection::SectionView, ".SECTION_VIEW."); v!(GeometricProjection::ElevationView, ".ELEVATION_VIEW."); v!(GeometricProjection::UserDefined, ".USERDEFINED."); v!(GeometricProjection::NotDefined, ".NOTDEFINED.");
    // ProfileType
    v!(ProfileType::Curve, ".CURVE."); v!(ProfileType::Area, ".AREA.");
    // RepresentationIdentifier
    v!(RepresentationIdentifier::CoG, "'CoG'"); v!(RepresentationIdentifier::Box, "'Box'"); v!(RepresentationIdentifier::Annotation, "'Annotation'"); v!(RepresentationIdentifier::Axis, "'Axis'"); v!(RepresentationIdentifier::FootPrint, "'FootPrint'"); v!(RepresentationIdentifier::Profile, "'Profile'"); v!(RepresentationIdentifier::Surface, "'Surface'"); v!(RepresentationIdentifier::Reference, "'Reference'"); v!(RepresentationIdentifier::Body, "'Body'"); v!(RepresentationIdentifier::BodyFallBack, "'Body-FallBack'"); v!(RepresentationIdentifier::Clearance, "'Clearance'"); v!(RepresentationIdentifier::Lighting, "'Lighting'");
    // RepresentationType
    v!(RepresentationType::Point, "'Point'"); v!(RepresentationType::PointCloud, "'PointCloud'"); v!(RepresentationType::Curve, "'Curve'"); v!(RepresentationType::Curve2D, "'Curve2D'"); v!(RepresentationType::Curve3D, "'Curve3D'"); v!(RepresentationType::Surface, "'Surface'"); v!(RepresentationType::Surface2D, "'Surface2D'"); v!(RepresentationType::Surface3D, "'Surface3D'"); v!(RepresentationType::SectionedSurface, "'SectionedSurface'"); v!(RepresentationType::FillArea, "'FillArea'"); v!(RepresentationType::Text, "'Text'"); v!(RepresentationType::AdvancedSurface, "'AdvancedSurface'"); v!(RepresentationType::GeometricSet, "'GeometricSet'"); v!(RepresentationType::GeometricCurveSet, "'GeometricCurveSet'"); v!(RepresentationType::Annotation2D, "'Annotation2D'"); v!(RepresentationType::SurfaceModel, "'SurfaceModel'"); v!(RepresentationType::Tessellation, "'Tessellation'"); v!(RepresentationType::Segment, "'Segment'"); v!(RepresentationType::SolidModel, "'SolidModel'"); v!(RepresentationType::SweptSolid, "'SweptSolid'"); v!(RepresentationType::AdvancedSweptSolid, "'AdvancedSweptSolid'"); v!(RepresentationType::Brep, "'Brep'"); v!(RepresentationType::AdvancedBrep, "'AdvancedBrep'"); v!(RepresentationType::CSG, "'CSG'"); v!(RepresentationType::Clipping, "'Clipping'"); v!(RepresentationType::BoundingBox, "'BoundingBox'"); v!(RepresentationType::SectionedSpine, "'SectionedSpine'"); v!(RepresentationType::LightSource, "'LightSource'"); v!(RepresentationType::MappedRepresentation, "'MappedRepresentation'");
    // DirectionSenseEnum
    v!(DirectionSenseEnum::Positive, ".POSITIVE."); v!(DirectionSenseEnum::Negative, ".NEGATIVE.");
    // LayerSetDirectionEnum
    v!(LayerSetDirectionEnum::Axis1, ".AXIS1."); v!(LayerSetDirectionEnum::Axis2, ".AXIS2."); v!(LayerSetDirectionEnum::Axis3, ".AXIS3.");
    // ShadingDeviceTypeEnum
    v!(ShadingDeviceTypeEnum::Awning, ".AWNING."); v!(ShadingDeviceTypeEnum::Parking, ".JALOUSIE."); v!(ShadingDeviceTypeEnum::Shutter, ".SHUTTER."); v!(ShadingDeviceTypeEnum::UserDefined, ".USERDEFINED."); v!(ShadingDeviceTypeEnum::NotDefined, ".NOTDEFINED.");
    // AccessState
    v!(AccessState::ReadWrite, ".READWRITE."); v!(AccessState::ReadOnly, ".READONLY."); v!(AccessState::Locked, ".LOCKED."); v!(AccessState::ReadWriteLocked, ".READWRITELOCKED."); v!(AccessState::ReadOnlyLocked, ".READONLYLOCKED.");
    // Role
    v!(Role::Supplier, ".SUPPLIER."); v!(Role::Manufacturer, ".MANUFACTURER."); v!(Role::Contractor, ".CONTRACTOR."); v!(Role::Subcontractor, ".SUBCONTRACTOR."); v!(Role::Architect, ".ARCHITECT."); v!(Role::StructuralEngineer, ".STRUCTURALENGINEER."); v!(Role::CostEngineer, ".COSTENGINEER."); v!(Role::Clien, ".CLIENT."); v!(Role::BuildingOwner, ".BUILDINGOWNER."); v!(Role::BuildingOperator, ".BUILDINGOPERATOR."); v!(Role::MechanicalEngineer, ".MECHANICALENGINEER."); v!(Role::ElectricalEngineer, ".ELECTRICALENGINEER."); v!(Role::ProjectManager, ".PROJECTMANAGER."); v!(Role::FacilitiesManager, ".FACILITIESMANAGER."); v!(Role::CivilEngineer, ".CIVILENGINEER."); v!(Role::ComissionEngineer, ".COMMISSIONINGENGINEER."); v!(Role::Engineer, ".ENGINEER."); v!(Role::Owner, ".OWNER."); v!(Role::Consultant, ".CONSULTANT."); v!(Role::ConstructionManager, ".CONSTRUCTIONMANAGER."); v!(Role::FieldConstructionManager, ".FIELDCONSTRUCTIONMANAGER."); v!(Role::Reseller, ".RESELLER."); v!(Role::UserDefined, ".USERDEFINED.");
    // ChangeAction
    v!(ChangeAction::NoChange, ".NOCHANGE."); v!(ChangeAction::Modified, ".MODIFIED."); v!(ChangeAction::Added, ".ADDED."); v!(ChangeAction::Deleted, ".DELETED."); v!(ChangeAction::ModifiedAdded, ".MODIFIEDADDED."); v!(ChangeAction::ModifiedDeleted, ".MODIFIEDDELETED.");
    // DoorOperationTypeEnum
    v!(DoorOperationTypeEnum::SingleSwingLeft, ".SINGLE_SWING_LEFT."); v!(DoorOperationTypeEnum::SingleSwingRight, ".SINGLE_SWING_RIGHT."); v!(DoorOperationTypeEnum::DoubleDoorSingleSwing, ".DOUBLE_DOOR_SINGLE_SWING."); v!(DoorOperationTypeEnum::DoubleSwingLeft, ".DOUBLE_SWING_LEFT."); v!(DoorOperationTypeEnum::DoubleSwingRight, ".DOUBLE_SWING_RIGHT."); v!(DoorOperationTypeEnum::DoubleDoorDoubleSwing, ".DOUBLE_DOOR_DOUBLE_SWING."); v!(DoorOperationTypeEnum::DoubleDoorSingleSwingOppositeLeft, ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_LEFT."); v!(DoorOperationTypeEnum::DoubleDoorSingleSwingOppositeRight, ".DOUBLE_DOOR_SINGLE_SWING_OPPOSITE_RIGHT."); v!(DoorOperationTypeEnum::SlidingToLeft, ".SLIDING_TO_LEFT."); v!(DoorOperationTypeEnum::SlidingToRight, ".SLIDING_TO_RIGHT."); v!(DoorOperationTypeEnum::DoubleDoorSliding, ".DOUBLE_DOOR_SLIDING."); v!(DoorOperationTypeEnum::FoldingToLeft, ".FOLDING_TO_LEFT."); v!(DoorOperationTypeEnum::FoldingToRight, ".FOLDING_TO_RIGHT."); v!(DoorOperationTypeEnum::DoubleDoorFolding, ".DOUBLE_DOOR_FOLDING."); v!(DoorOperationTypeEnum::Revolving, ".REVOLVING."); v!(DoorOperationTypeEnum::RollingUp, ".ROLLINGUP."); v!(DoorOperationTypeEnum::SwingFixedLeft, ".SWING_FIXED_LEFT."); v!(DoorOperationTypeEnum::SwingFixedRight, ".SWING_FIXED_RIGHT."); v!(DoorOperationTypeEnum::UserDefined, ".USERDEFINED."); v!(DoorOperationTypeEnum::NotDefined, ".NOTDEFINED.");
    // DoorTypeEnum
    v!(DoorTypeEnum::Door, ".DOOR."); v!(DoorTypeEnum::Gate, ".GATE."); v!(DoorTypeEnum::Trapdoor, ".TRAPDOOR."); v!(DoorTypeEnum::UserDefined, ".USERDEFINED."); v!(DoorTypeEnum::NotDefined, ".NOTDEFINED.");
    // OpeningElementTypeEnum
    v!(OpeningElementTypeEnum::Opening, ".OPENING."); v!(OpeningElementTypeEnum::Recess, ".RECESS."); v!(OpeningElementTypeEnum::UserDefined, ".USERDEFINED."); v!(OpeningElementTypeEnum::NotDefined, ".NOTDEFINED.");
    // RoofTypeEnum
    v!(RoofTypeEnum::FlatRoof, ".FLAT_ROOF."); v!(RoofTypeEnum::ShedRoof, ".SHED_ROOF."); v!(RoofTypeEnum::GableRoof, ".GABLE_ROOF."); v!(RoofTypeEnum::HipRoof, ".HIP_ROOF."); v!(RoofTypeEnum::HippedGableRoof, ".HIPPED_GABLE_ROOF."); v!(RoofTypeEnum::GambrelRoof, ".GAMBREL_ROOF."); v!(RoofTypeEnum::MansardRoof, ".MANSARD_ROOF."); v!(RoofTypeEnum::BarrelRoof, ".BARREL_ROOF."); v!(RoofTypeEnum::RainbowRoof, ".RAINBOW_ROOF."); v!(RoofTypeEnum::ButterflyRoof, ".BUTTERFLY_ROOF."); v!(RoofTypeEnum::PavilionRoof, ".PAVILION_ROOF."); v!(RoofTypeEnum::DomeRoof, ".DOME_ROOF."); v!(RoofTypeEnum::UserDefined, ".USERDEFINED."); v!(RoofTypeEnum::NotDefined, ".NOTDEFINED.");
    // CompositionTypeEnum
    v!(CompositionTypeEnum::Comples, ".COMPLEX."); v!(CompositionTypeEnum::Element, ".ELEMENT."); v!(CompositionTypeEnum::Partial, ".PARTIAL.");
    // SlabTypeEnum
    v!(SlabTypeEnum::Floor, ".FLOOR."); v!(SlabTypeEnum::Roof, ".ROOF."); v!(SlabTypeEnum::Landing, ".LANDING."); v!(SlabTypeEnum::BaseSlab, ".BASESLAB."); v!(SlabTypeEnum::UserDefined, ".USERDEFINED."); v!(SlabTypeEnum::NotDefined, ".NOTDEFINED.");
    // SpaceTypeEnum
    v!(SpaceTypeEnum::Space, ".SPACE."); v!(SpaceTypeEnum::Parking, ".PARKING."); v!(SpaceTypeEnum::Gfa, ".GFA."); v!(SpaceTypeEnum::Internal, ".INTERNAL."); v!(SpaceTypeEnum::External, ".EXTERNAL."); v!(SpaceTypeEnum::UserDefined, ".USERDEFINED."); v!(SpaceTypeEnum::NotDefined, ".NOTDEFINED.");
    // WallTypeEnum
    v!(WallTypeEnum::Movable, ".MOVABLE."); v!(WallTypeEnum::Parapet, ".PARAPET."); v!(WallTypeEnum::Partitioning, ".PARTITIONING."); v!(WallTypeEnum::Plumbingwall, ".PLUMBINGWALL."); v!(WallTypeEnum::Shear, ".SHEAR."); v!(WallTypeEnum::Solidwall, ".SOLIDWALL."); v!(WallTypeEnum::Standard, ".STANDARD."); v!(WallTypeEnum::Polygonal, ".POLYGONAL."); v!(WallTypeEnum::Elementedwall, ".ELEMENTEDWALL."); v!(WallTypeEnum::Retainingwall, ".RETAININGWALL."); v!(WallTypeEnum::UserDefined, ".USERDEFINED."); v!(WallTypeEnum::NotDefined, ".NOTDEFINED.");
    // WindowPartitioningTypeEnum
    v!(WindowPartitioningTypeEnum::SinglePanel, ".SINGLE_PANEL."); v!(WindowPartitioningTypeEnum::DoublePanelVertical, ".DOUBLE_PANEL_VERTICAL."); v!(WindowPartitioningTypeEnum::DoublePanelHorizontal, ".DOUBLE_PANEL_HORIZONTAL."); v!(WindowPartitioningTypeEnum::TriplePanelVertical, ".TRIPLE_PANEL_VERTICAL."); v!(WindowPartitioningTypeEnum::TriplePanelHorizontal, ".TRIPLE_PANEL_HORIZONTAL."); v!(WindowPartitioningTypeEnum::TriplePanelBottom, ".TRIPLE_PANEL_BOTTOM."); v!(WindowPartitioningTypeEnum::TriplePanelTop, ".TRIPLE_PANEL_TOP."); v!(WindowPartitioningTypeEnum::TriplePanelLeft, ".TRIPLE_PANEL_LEFT."); v!(WindowPartitioningTypeEnum::TriplePanelRight, ".TRIPLE_PANEL_RIGHT."); v!(WindowPartitioningTypeEnum::UserDefined, ".USERDEFINED."); v!(WindowPartitioningTypeEnum::NotDefined, ".NOTDEFINED.");
    // WindowTypeEnum
    v!(WindowTypeEnum::Window, ".WINDOW."); v!(WindowTypeEnum::Skylight, ".SKYLIGHT."); v!(WindowTypeEnum::Lightdome, ".LIGHTDOME."); v!(WindowTypeEnum::UserDefined, ".USERDEFINED."); v!(WindowTypeEnum::NotDefined, ".NOTDEFINED.");
    // DerivedUnitEnum
    v!(DerivedUnitEnum::ANGULARVELOCITYUNIT, ".ANGULARVELOCITYUNIT."); v!(DerivedUnitEnum::AREADENSITYUNIT, ".AREADENSITYUNIT."); v!(DerivedUnitEnum::COMPOUNDPLANEANGLEUNIT, ".COMPOUNDPLANEANGLEUNIT."); v!(DerivedUnitEnum::DYNAMICVISCOSITYUNIT, ".DYNAMICVISCOSITYUNIT."); v!(DerivedUnitEnum::HEATFLUXDENSITYUNIT, ".HEATFLUXDENSITYUNIT."); v!(DerivedUnitEnum::INTEGERCOUNTRATEUNIT, ".INTEGERCOUNTRATEUNIT."); v!(DerivedUnitEnum::ISOTHERMALMOISTURECAPACITYUNIT, ".ISOTHERMALMOISTURECAPACITYUNIT."); v!(DerivedUnitEnum::KINEMATICVISCOSITYUNIT, ".KINEMATICVISCOSITYUNIT."); v!(DerivedUnitEnum::LINEARVELOCITYUNIT, ".LINEARVELOCITYUNIT."); v!(DerivedUnitEnum::MASSDENSITYUNIT, ".MASSDENSITYUNIT."); v!(DerivedUnitEnum::MASSFLOWRATEUNIT, ".MASSFLOWRATEUNIT."); v!(DerivedUnitEnum::MOISTUREDIFFUSIVITYUNIT, ".MOISTUREDIFFUSIVITYUNIT."); v!(DerivedUnitEnum::MOLECULARWEIGHTUNIT, ".MOLECULARWEIGHTUNIT."); v!(DerivedUnitEnum::SPECIFICHEATCAPACITYUNIT, ".SPECIFICHEATCAPACITYUNIT."); v!(DerivedUnitEnum::THERMALADMITTANCEUNIT, ".THERMALADMITTANCEUNIT."); v!(DerivedUnitEnum::THERMALCONDUCTANCEUNIT, ".THERMALCONDUCTANCEUNIT."); v!(DerivedUnitEnum::THERMALRESISTANCEUNIT, ".THERMALRESISTANCEUNIT."); v!(DerivedUnitEnum::THERMALTRANSMITTANCEUNIT, ".THERMALTRANSMITTANCEUNIT."); v!(DerivedUnitEnum::VAPORPERMEABILITYUNIT, ".VAPORPERMEABILITYUNIT."); v!(DerivedUnitEnum::VOLUMETRICFLOWRATEUNIT, ".VOLUMETRICFLOWRATEUNIT."); v!(DerivedUnitEnum::ROTATIONALFREQUENCYUNIT, ".ROTATIONALFREQUENCYUNIT."); v!(DerivedUnitEnum::TORQUEUNIT, ".TORQUEUNIT."); v!(DerivedUnitEnum::MOMENTOFINERTIAUNIT, ".MOMENTOFINERTIAUNIT."); v!(DerivedUnitEnum::LINEARMOMENTUNIT, ".LINEARMOMENTUNIT."); v!(DerivedUnitEnum::LINEARFORCEUNIT, ".LINEARFORCEUNIT."); v!(DerivedUnitEnum::PLANARFORCEUNIT, ".PLANARFORCEUNIT."); v!(DerivedUnitEnum::MODULUSOFELASTICITYUNIT, ".MODULUSOFELASTICITYUNIT."); v!(DerivedUnitEnum::SHEARMODULUSUNIT, ".SHEARMODULUSUNIT."); v!(DerivedUnitEnum::LINEARSTIFFNESSUNIT, ".LINEARSTIFFNESSUNIT."); v!(DerivedUnitEnum::ROTATIONALSTIFFNESSUNIT, ".ROTATIONALSTIFFNESSUNIT."); v!(DerivedUnitEnum::MODULUSOFSUBGRADEREACTIONUNIT, ".MODULUSOFSUBGRADEREACTIONUNIT."); v!(DerivedUnitEnum::ACCELERATIONUNIT, ".ACCELERATIONUNIT."); v!(DerivedUnitEnum::CURVATUREUNIT, ".CURVATUREUNIT."); v!(DerivedUnitEnum::IONCONCENTRATIONUNIT, ".IONCONCENTRATIONUNIT."); v!(DerivedUnitEnum::LUMINOUSINTENSITYDISTRIBUTIONUNIT, ".LUMINOUSINTENSITYDISTRIBUTIONUNIT."); v!(DerivedUnitEnum::MASSPERLENGTHUNIT, ".MASSPERLENGTHUNIT."); v!(DerivedUnitEnum::MODULUSOFLINEARSUBGRADEREACTIONUNIT, ".MODULUSOFLINEARSUBGRADEREACTIONUNIT."); v!(DerivedUnitEnum::MODULUSOFROTATIONALSUBGRADEREACTIONUNIT, ".MODULUSOFROTATIONALSUBGRADEREACTIONUNIT."); v!(DerivedUnitEnum::PHUNIT, ".PHUNIT."); v!(DerivedUnitEnum::ROTATIONALMASSUNIT, ".ROTATIONALMASSUNIT."); v!(DerivedUnitEnum::SECTIONAREAINTEGRALUNIT, ".SECTIONAREAINTEGRALUNIT."); v!(DerivedUnitEnum::SECTIONMODULUSUNIT, ".SECTIONMODULUSUNIT."); v!(DerivedUnitEnum::SOUNDPOWERLEVELUNIT, ".SOUNDPOWERLEVELUNIT."); v!(DerivedUnitEnum::SOUNDPOWERUNIT, ".SOUNDPOWERUNIT."); v!(DerivedUnitEnum::SOUNDPRESSURELEVELUNIT, ".SOUNDPRESSURELEVELUNIT."); v!(DerivedUnitEnum::SOUNDPRESSUREUNIT, ".SOUNDPRESSUREUNIT."); v!(DerivedUnitEnum::TEMPERATUREGRADIENTUNIT, ".TEMPERATUREGRADIENTUNIT."); v!(DerivedUnitEnum::TEMPERATURERATEOFCHANGEUNIT, ".TEMPERATURERATEOFCHANGEUNIT."); v!(DerivedUnitEnum::THERMALEXPANSIONCOEFFICIENTUNIT, ".THERMALEXPANSIONCOEFFICIENTUNIT."); v!(DerivedUnitEnum::WARPINGCONSTANTUNIT, ".WARPINGCONSTANTUNIT."); v!(DerivedUnitEnum::WARPINGMOMENTUNIT, ".WARPINGMOMENTUNIT."); v!(DerivedUnitEnum::USERDEFINED, ".USERDEFINED.");
    // IfcUnitName
    v!(IfcUnitName::Ampere, ".AMPERE."); v!(IfcUnitName::Becquerel, ".BECQUEREL."); v!(IfcUnitName::Candela, ".CANDELA."); v!(IfcUnitName::Couloumb, ".COULOMB."); v!(IfcUnitName::CubicMetre, ".CUBIC_METRE."); v!(IfcUnitName::DegreeCelcius, ".DEGREE_CELSIUS."); v!(IfcUnitName::Farad, ".FARAD."); v!(IfcUnitName::Gram, ".GRAM."); v!(IfcUnitName::Gray, ".GRAY."); v!(IfcUnitName::Henry, ".HENRY."); v!(IfcUnitName::Hertz, ".HERTZ."); v!(IfcUnitName::Joule, ".JOULE."); v!(IfcUnitName::Kelvin, ".KELVIN."); v!(IfcUnitName::Lumen, ".LUMEN."); v!(IfcUnitName::Lux, ".LUX."); v!(IfcUnitName::Metre, ".METRE."); v!(IfcUnitName::Mole, ".MOLE."); v!(IfcUnitName::Newton, ".NEWTON."); v!(IfcUnitName::Ohm, ".OHM."); v!(IfcUnitName::Pascal, ".PASCAL."); v!(IfcUnitName::Radian, ".RADIAN."); v!(IfcUnitName::Second, ".SECOND."); v!(IfcUnitName::Siemens, ".SIEMENS."); v!(IfcUnitName::Sievert, ".SIEVERT."); v!(IfcUnitName::SquareMetre, ".SQUARE_METRE."); v!(IfcUnitName::Steradian, ".STERADIAN."); v!(IfcUnitName::Tesla, ".TESLA."); v!(IfcUnitName::Volt, ".VOLT."); v!(IfcUnitName::Watt, ".WATT."); v!(IfcUnitName::Weber, ".WEBER.");
    // IfcPrefix
    v!(IfcPrefix::Exa, ".EXA."); v!(IfcPrefix::Peta, ".PETA."); v!(IfcPrefix::Tera, ".TERA."); v!(IfcPrefix::Giga, ".GIGA."); v!(IfcPrefix::Mega, ".MEGA."); v!(IfcPrefix::Kilo, ".KILO."); v!(IfcPrefix::Deca, ".DECA."); v!(IfcPrefix::Deci, ".DECI."); v!(IfcPrefix::Centi, ".CENTI."); v!(IfcPrefix::Milli, ".MILLI."); v!(IfcPrefix::Micro, ".MICRO."); v!(IfcPrefix::Nano, ".NANO."); v!(IfcPrefix::Pico, ".PICO."); v!(IfcPrefix::Femto, ".FEMTO."); v!(IfcPrefix::Atto, ".ATTO.");
    // IfcUnitEnum
    v!(IfcUnitEnum::AbsorbedDoseUnit, ".ABSORBEDDOSEUNIT."); v!(IfcUnitEnum::AmountOfSubstanceUnit, ".AMOUNTOFSUBSTANCEUNIT."); v!(IfcUnitEnum::AreaUnit, ".AREAUNIT."); v!(IfcUnitEnum::DoseEquivalentUnit, ".DOSEEQUIVALENTUNIT."); v!(IfcUnitEnum::ElectricCapacitanceUnit, ".ELECTRICCAPACITANCEUNIT."); v!(IfcUnitEnum::ElectricChargeUnit, ".ELECTRICCHARGEUNIT."); v!(IfcUnitEnum::ElectricConductanceUnit, ".ELECTRICCONDUCTANCEUNIT."); v!(IfcUnitEnum::ElectricCurrentUnit, ".ELECTRICCURRENTUNIT."); v!(IfcUnitEnum::ElectricResistanceUnit, ".ELECTRICRESISTANCEUNIT."); v!(IfcUnitEnum::ElectricVoltageUnit, ".ELECTRICVOLTAGEUNIT."); v!(IfcUnitEnum::EnergyUnit, ".ENERGYUNIT."); v!(IfcUnitEnum::ForceUnit, ".FORCEUNIT."); v!(IfcUnitEnum::IlluminanceUnit, ".ILLUMINANCEUNIT."); v!(IfcUnitEnum::InductanceUnit, ".INDUCTANCEUNIT."); v!(IfcUnitEnum::LengthUnit, ".LENGTHUNIT."); v!(IfcUnitEnum::LuminousFluxUnit, ".LUMINOUSFLUXUNIT."); v!(IfcUnitEnum::LuminousIntensityUnit, ".LUMINOUSINTENSITYUNIT."); v!(IfcUnitEnum::MagneticFluxDensityUnit, ".MAGNETICFLUXDENSITYUNIT."); v!(IfcUnitEnum::MagneticFluxUnit, ".MAGNETICFLUXUNIT."); v!(IfcUnitEnum::MassUnit, ".MASSUNIT."); v!(IfcUnitEnum::PlaneAngleUnit, ".PLANEANGLEUNIT."); v!(IfcUnitEnum::PowerUnit, ".POWERUNIT."); v!(IfcUnitEnum::PressureUnit, ".PRESSUREUNIT."); v!(IfcUnitEnum::RadioActivityUnit, ".RADIOACTIVITYUNIT."); v!(IfcUnitEnum::SolidAngleUnit, ".SOLIDANGLEUNIT."); v!(IfcUnitEnum::ThermoDynamicTemperatureUnit, ".THERMODYNAMICTEMPERATUREUNIT."); v!(IfcUnitEnum::TimeUnit, ".TIMEUNIT."); v!(IfcUnitEnum::VolumeUnit, ".VOLUMEUNIT."); v!(IfcUnitEnum::UserDefined, ".USERDEFINED.");

    check(n == COUNT, "enum.api.count");
}
const COUNT: u64 = 312;
