pub mod gencode;
pub mod refparse;
pub mod sx;
pub mod text;
pub mod tsm;
pub mod types;

pub fn entries() -> Vec<(&'static str, fn())> {
    vec![
        ("h_c01_raw", text::h_c01_raw),
        ("h_c01_edit", text::h_c01_edit),
        ("h_c01_win", text::h_c01_win),
        ("h_c02", text::h_c02),
        ("h_c04_raw", text::h_c04_raw),
        ("h_c04_edit", text::h_c04_edit),
        ("h_c04_win", text::h_c04_win),
        ("h_c03_raw", text::h_c03_raw),
        ("h_c03_edit", text::h_c03_edit),
        ("h_c03_win", text::h_c03_win),
        ("h_c05", types::h_c05),
        ("h_c06", types::h_c06),
        ("h_c07", types::h_c07),
        ("h_c08", types::h_c08),
        ("h_c15", types::h_c15),
        ("h_c27_win", gencode::h_c27_win),
        ("h_c27_edit", gencode::h_c27_edit),
        ("h_c27_gen", gencode::h_c27_gen),
        ("h_c15_text", gencode::h_c15_text),
        ("h_c16", types::h_c16),
        ("h_c09", gencode::h_c09),
        ("h_c10", gencode::h_c10),
        ("h_c10_long", gencode::h_c10_long),
        ("h_c11", gencode::h_c11),
        ("h_c12", gencode::h_c12),
        ("h_c13", gencode::h_c13),
        ("h_c14", gencode::h_c14),
        ("h_c11_names", gencode::h_c11_names),
        ("h_c14_names", gencode::h_c14_names),
        ("h_c14_pair", gencode::h_c14_pair),
        ("h_c21", gencode::h_c21),
        ("h_c21_method", gencode::h_c21_method),
        ("h_c22", gencode::h_c22),
        ("h_c23_raw", gencode::h_c23_raw),
        ("h_c23_edit", gencode::h_c23_edit),
        ("h_c23_win", gencode::h_c23_win),
        ("h_c24", gencode::h_c24),
    ]
}
