//! Stands in for plot_icon: the picture of an account is its bytes behind a
//! mark, so that equal pictures mean equal bytes.
pub const MARK: u8 = 0xa5;
pub fn generate_png_scaled_default(into_id: &[u8]) -> Vec<u8> {
    let mut v = vec![MARK];
    v.extend_from_slice(into_id);
    v
}
