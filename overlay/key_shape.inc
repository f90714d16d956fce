pub open spec fn wf_key<G: BilinearMap>(k: GpswDecryptionKey<G>) -> bool {
    &&& msp_shape(k.msp) && k.d_i@.len() == k.msp.nb_row && k.raw_d_i@.len() == k.msp.nb_row
    &&& forall|r: int| 0 <= r < k.msp.nb_row ==> cong((#[trigger] k.d_i@[r]).dl(), k.raw_d_i@[r].dl())
}
