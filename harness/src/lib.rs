#![allow(bare_trait_objects, dead_code, unused_imports)]
#[macro_use] pub mod sx;
pub mod kit;
#[cfg(feature = "g_geom")] pub mod g_geom;
#[cfg(feature = "g_kd")] pub mod g_kd;
#[cfg(feature = "g_shape")] pub mod g_shape;
#[cfg(feature = "g_xform")] pub mod g_xform;
#[cfg(feature = "g_film")] pub mod g_film;
#[cfg(feature = "g_ppm")] pub mod g_ppm;
#[cfg(feature = "g_samp")] pub mod g_samp;
#[cfg(feature = "g_bxdf")] pub mod g_bxdf;
#[cfg(feature = "g_fres")] pub mod g_fres;
#[cfg(feature = "g_light")] pub mod g_light;
#[cfg(feature = "g_sched")] pub mod g_sched;
#[cfg(feature = "g_scene")] pub mod g_scene;
#[cfg(feature = "g_world")] pub mod g_world;
#[cfg(feature = "g_integ")] pub mod g_integ;
#[cfg(feature = "g_mat")] pub mod g_mat;
