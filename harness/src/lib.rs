#[macro_use]
pub mod nd;
pub mod models;
#[macro_use]
pub mod m_slice;
pub mod m_delay;
pub mod m_fixed;
pub mod m_env;
pub mod m_float;
pub mod m_misc;
pub mod m_osc;

pub fn tables() -> Vec<&'static [(&'static str, fn())]> {
    vec![m_slice::TABLE, m_delay::TABLE, m_float::TABLE, m_fixed::TABLE, m_osc::TABLE, m_env::TABLE, m_misc::TABLE]
}
