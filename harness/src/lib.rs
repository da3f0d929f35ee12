pub mod auc_props;
pub mod aucm;
pub mod fw;
pub mod hist_props;
pub mod rare;
pub mod registry;
pub mod spake_props;
pub mod spakem;
pub mod srp_props;
pub mod srpm;
pub mod step;
pub mod util;
pub mod x_props;
