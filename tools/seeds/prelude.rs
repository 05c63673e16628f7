#![allow(unused_imports, dead_code, unused_mut, unused_variables)]
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::collision_detection::hazard_filter::*;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::*;
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::entities::quality_zone::InferiorQualityZone;
use jagua_rs::geometry::convex_hull::*;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::fail_fast::sp_surrogate::SPSurrogate;
use jagua_rs::geometry::geo_enums::*;
use jagua_rs::geometry::geo_traits::*;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::json_instance::*;
use jagua_rs::io::parser::*;
use jagua_rs::util::config::*;
use jagua_rs::util::polygon_simplification::*;

type P = (f32, f32);
fn sp(p: &[P]) -> SimplePolygon { SimplePolygon::new(p.iter().map(|p| Point(p.0, p.1)).collect()) }
fn bx(x: f32, y: f32, w: f32, h: f32) -> Vec<P> { vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)] }
fn scfg(poles: usize, ffp: usize, piers: usize) -> SPSurrogateConfig { SPSurrogateConfig { pole_coverage_goal: 0.9, max_poles: poles, n_ff_poles: ffp, n_ff_piers: piers } }
fn cfg(depth: u8, hpg: usize) -> CDEConfig { CDEConfig { quadtree_depth: depth, hpg_n_cells: hpg, item_surrogate_config: scfg(4, 2, 0) } }
fn item(id: usize, p: &[P], q: Option<usize>) -> Item { Item::new(id, sp(p), AllowedRotation::None, q, 1, Transformation::empty(), scfg(4, 2, 0)) }
fn bin(id: usize, outer: &[P], holes: &[Vec<P>], zones: &[(usize, Vec<P>)], c: CDEConfig) -> Bin {
    Bin::new(id, sp(outer), 1, Transformation::empty(), holes.iter().map(|h| sp(h)).collect(), zones.iter().map(|(q, z)| InferiorQualityZone::new(*q, vec![sp(z)])).collect(), c)
}
fn dt(x: f32, y: f32) -> DTransformation { DTransformation::new(0.0, (x, y)) }
fn tr(x: f32, y: f32) -> Transformation { Transformation::from_translation((x, y)) }
fn expect(ok: bool, what: &str) { if !ok { eprintln!("FAILED: {what}"); std::process::exit(1); } }
