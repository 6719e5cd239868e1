pub mod alloc;
pub mod tok;
pub mod util;
pub mod wa;
pub mod wr;
pub mod wn;
pub mod wp;
pub mod wf;
pub mod ww;
pub mod wt;
pub mod wd;
pub mod wg;
pub mod gen;
pub mod driver;

#[cfg(not(feature = "sysalloc"))]
#[global_allocator]
static GLOBAL: alloc::Checked = alloc::Checked;
