pub open spec fn msp_shape<I>(m: MonotoneSpanProgram<I>) -> bool {
    &&& m.nb_row >= 1 && m.nb_col >= 1
    &&& m.matrix@.len() == m.nb_row && m.row_to_attr@.len() == m.nb_row
    &&& forall|i: int| 0 <= i < m.nb_row ==> (#[trigger] m.matrix@[i])@.len() == m.nb_col
    &&& attr_index(m.attr_to_row@, m.row_to_attr@)
}
pub open spec fn attr_index(mp: Map<u32, usize>, attrs: Seq<u32>) -> bool {
    &&& forall|i: int| 0 <= i < attrs.len() ==> mp.contains_key(#[trigger] attrs[i]) && mp[attrs[i]] == i
    &&& forall|x: u32| #[trigger] mp.contains_key(x) ==> mp[x] < attrs.len() && attrs[mp[x] as int] == x
}
