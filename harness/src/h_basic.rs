use crate::rt::*;
use vpin::vpx::color::Color;
#[unsafe(no_mangle)]
pub extern "C" fn h_color_rt() {
    let x = u32s();
    let c = Color::from_win_color(x);
    let y = c.to_win_color();
    observe(&y.to_le_bytes());
    check(x == y, "to_win_color inverts from_win_color");
    reach(1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_vpx_default() {
    let v = vpin::vpx::VPX::default();
    log("to_bytes");
    let b = vpin::vpx::to_bytes(&v).unwrap();
    log("from_bytes");
    let w = vpin::vpx::from_bytes(&b).unwrap();
    check(v.gamedata == w.gamedata, "gamedata survives");
    observe(&b);
    reach(1);
}
