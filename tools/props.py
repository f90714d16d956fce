import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,hook=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
MSP='src/core/msp.rs'; SCH='src/core/gpsw/scheme.rs'; ENG='src/core/engine.rs'; BM='src/core/bilinear_map/mod.rs'; BLS='src/core/bilinear_map/bls12_381.rs'; GM='src/core/gpsw/mod.rs'
ST='src/interfaces/hybrid_crypto/statics.rs'; FH='src/interfaces/ffi/hybrid_gpsw_aes.rs'; FG='src/interfaces/ffi/generate_gpsw_keys.rs'; FE='src/interfaces/ffi/error.rs'
PY1='src/interfaces/pyo3/generate_gpsw_keys.rs'; PY2='src/interfaces/pyo3/hybrid_gpsw_aes.rs'
W1='src/interfaces/wasm_bindgen/generate_gpsw_keys.rs'; W2='src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs'; W3='src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs'
p('C01','An authorised key always recovers exactly the encrypted message',
 'If the attributes a message was encrypted under satisfy the access formula of a decryption key issued by the same authority, decryption succeeds and returns exactly that message. This holds for every formula, every list of attributes (any order, with or without attributes the key does not know), every message and every outcome of the random choices.',
 ['inputs','programs'],'all access formulas with distinct leaves, all satisfying attribute lists, all messages, all random values drawn by setup, key generation and encryption',
 'The tests try a handful of formulas of at most a dozen leaves with the attribute lists in one order; the guarantee is an algebraic identity over every formula shape, every satisfying subset (including under-determined and redundant ones) and every field value.',
 [MSP,SCH,ENG,BM,BLS],[('formula to span program','Node::to_msp'),('key shares','Gpsw::key_generation, prod_scal'),('ciphertext','Gpsw::encrypt'),('solving for the span coefficients','Gpsw::span_coefs'),('recombination','Gpsw::decrypt'),('scalar and group wrappers','bls12_381.rs impl BilinearMap')],
 ['Gpsw::decrypt','Engine::decrypt'])
p('C02','A key whose policy is not satisfied never yields a plaintext',
 'If the attributes of a ciphertext do not satisfy the access formula of a decryption key, decryption reports failure (an error or an explicit "no plaintext") and never returns a value as if it were the message. A decryption key only ever carries shares for the attributes of the formula it was issued for.',
 ['inputs','programs'],'all access formulas with distinct leaves and all non-satisfying attribute lists, including lists with some but not all needed attributes',
 'Tests check a few rejected attribute sets; absence of any linear combination reaching the target has to hold for every formula and every insufficient subset, and a solver that returns an inconsistent "solution" only for particular rank patterns would pass them.',
 [MSP,SCH,ENG],[('span program soundness','Node::to_msp'),('no-solution detection','Gpsw::span_coefs'),('row selection','Gpsw::decrypt')],['Gpsw::decrypt','Gpsw::span_coefs','Engine::decrypt'])
p('C03','Access policies compile to exactly the boolean function they denote',
 'The structure compiled from an access policy accepts a set of attribute values exactly when the policy, read as a boolean formula, is true of it: an attribute of a hierarchical axis also accepts every attribute listed before it on that axis, every attribute accepts all values it has had over rotations, and the catch-all policy accepts any value known to the policy. Unknown axes, unknown attributes, repeated attribute values and the catch-all inside a formula are rejected with an error.',
 ['inputs','configurations'],'all policies (axes, hierarchies, rotations), all access policies over them and all sets of attribute values',
 'Tests compile a few hand-written policies; a wrong hierarchy bound, a forgotten rotated value or a wrong matrix row only shows for particular positions, rotation counts or formula shapes.',
 [MSP],[('leaf expansion (hierarchy, rotations)','policy_to_node'),('boolean structure','policy_to_formula, policy_to_msp'),('linear secret sharing','Node::to_msp')],['policy_to_msp','Engine::generate_user_key','Engine::delegate_user_key'])
p('C04','Delegated and re-randomised keys are valid and never gain power',
 'Re-randomising a key, or delegating it to the same formula or to one obtained by replacing "or" nodes by one of their branches or by an "and", gives a key that decrypts exactly what its (new) formula allows. Delegation to a formula with an attribute absent from the original key is refused with an error, and no delegated key recovers a message that the original key could not.',
 ['inputs','histories'],'all original formulas, all chains of delegations and re-randomisations, all random values',
 'Tests delegate one key once or twice; validity must be preserved for every formula, every branch selection and every chain length, and must hold for the blinding drawn each time.',
 [SCH,ENG,MSP],[('delegation','Gpsw::key_delegation'),('re-randomisation','Gpsw::key_randomization'),('dispatch','AbeScheme::key_delegation, Engine::delegate_user_key')],['Engine::delegate_user_key','Gpsw::key_delegation','Gpsw::key_randomization'])
p('C05','Serialised keys, ciphertexts and span programs decode to the same value',
 'Every key, ciphertext, span program, list and group or field element that encodes successfully decodes back to an equal value, also when followed by unrelated trailing bytes, and the length it reports for itself is exactly the number of bytes it encodes to. This holds for every value the library itself produces with at least one attribute; re-encoding gives the same bytes.',
 ['inputs'],'all values of the serialisable types with non-empty attribute lists, all trailing bytes',
 'Tests round-trip one or two values of each type; offsets depend on element sizes, list lengths and matrix shapes, and composite decoding depends on every self-reported length.',
 [GM,SCH,MSP,BLS],[('primitive and list codec','gpsw/mod.rs impl AsBytes'),('keys and ciphertext codec','scheme.rs impl AsBytes'),('span program codec','msp.rs impl AsBytes'),('group element codec','bls12_381.rs impl AsBytes')],['AsBytes::try_into_bytes','AsBytes::try_from_bytes','AsBytes::len_bytes'])
p('C06','Decoding and using hostile or damaged data fails cleanly, never crashes',
 'Decoding any byte string as a key, ciphertext, span program, list, element or hybrid header returns a value or an error; it never panics, overflows, reads out of bounds, or reserves memory out of proportion to the input. Anything successfully decoded can be given to decryption, encryption, delegation or re-randomisation together with any other decoded value and again gives a value or an error; a decoded key or ciphertext always has one component per attribute.',
 ['inputs','fault_sequences'],'all byte strings (truncated, extended, bit-flipped, adversarial lengths) and all pairs of decoded values',
 'The tests decode only valid encodings; panics sit at particular length fields (0, 1, huge) and size mismatches between nested parts.',
 [GM,SCH,MSP,BLS,ST],[('length checks','gpsw/mod.rs Vec<T>::try_from_bytes'),('matrix size checks','msp.rs try_from_bytes'),('composite consistency','scheme.rs try_from_bytes'),('use of decoded attribute values','Gpsw::{encrypt,key_delegation,key_randomization,decrypt}')],['AsBytes::try_from_bytes','EncryptedHeader::try_from_bytes','ClearTextHeader::try_from_bytes','decrypt_hybrid_header'])
p('C07','Textual formulas parse to the formula they denote or are rejected',
 'A formula text made of integers, "&", "|", spaces (which are insignificant: "1 2" is 12) and parentheses, where an unparenthesised operator applies to everything on its right, parses to exactly the formula it denotes. Any other text (empty, other characters, unbalanced or empty parentheses, missing operands or operators, integers that do not fit 32 bits) is rejected with an error, and parsing never crashes on any text of moderate nesting.',
 ['inputs'],'all strings',
 'Tests parse a dozen strings; parenthesis matching and slicing must be right for every nesting and every malformed text.',
 [MSP],[('recursive descent parser','Node::parse')],['Node::parse','MonotoneSpanProgram::parse'])
p('C08','Hybrid headers round-trip key and metadata under the documented framing',
 'A header encrypted for given attributes, opened with an authorised key, yields the same symmetric key the encryptor obtained and exactly the same metadata: resource id and additional data, where absent and empty additional data are the same thing on the wire (and empty metadata when none was given). The header is the 4-byte big-endian length of the encapsulation, the encapsulation, and, if there is metadata, the nonce, the 4-byte length of the encrypted metadata and the encrypted metadata; exported header objects decode back to equal key and payload.',
 ['inputs'],'all metadata (present, absent, empty and large fields), all attribute lists, all authorised keys',
 'Tests use one metadata value and one attribute list; framing has to be consistent for every length and for absent or empty parts.',
 [ST,ENG],[('header writer','encrypt_hybrid_header, u32_len'),('header reader','decrypt_hybrid_header'),('header objects','EncryptedHeader/ClearTextHeader::{try_into_bytes,try_from_bytes}')],['encrypt_hybrid_header','decrypt_hybrid_header'])
p('C09','Encrypted blocks open only with their own key, resource id and block number',
 'A block encrypted with a key, resource id and block number decrypts with the same three to exactly the original data, and with any different key, resource id or block number, or any altered byte, decryption fails. Empty data and data above the block limit are refused on encryption, empty and over-long ciphertexts on decryption, and the ciphertext is longer than the data by exactly the advertised overhead.',
 ['inputs'],'all keys, ids, block numbers and data lengths up to and around the limit',
 'Tests encrypt one block with matching parameters; binding of id and block number and the size limits need every combination.',
 [ST,FH],[('block encryption','encrypt_hybrid_block'),('block decryption','decrypt_hybrid_block'),('overhead','symmetric_encryption_overhead')],['encrypt_hybrid_block','decrypt_hybrid_block','h_aes_encrypt_block','h_aes_decrypt_block'])
p('C10','Native calls stay inside caller buffers and report sizes and status exactly',
 'A native call never writes more bytes to an output buffer than the capacity the caller declared, writes exactly the result and sets the length to its size when it returns 0, and leaves the buffers of results that do not fit untouched while returning 1. Null pointers that are not allowed, empty inputs, negative or zero capacities and malformed contents make it return 1 with a retrievable error message and never crash.',
 ['inputs','fault_sequences'],'all combinations of null pointers, buffer capacities (zero, negative, short, exact, long) and input contents',
 'Tests call each function with ample buffers and valid inputs only; overruns and wrong sizes appear at exact and short capacities and with some outputs not requested.',
 [FH,FG,FE],[('capacity checks before copy','h_aes_* functions'),('argument checks','ffi_not_null!, ffi_bail!, ffi_unwrap!'),('error channel','set_last_error, get_last_error')],['h_aes_encrypt_header','h_aes_decrypt_header','h_aes_encrypt_block','h_aes_decrypt_block','h_generate_master_keys','h_generate_user_private_key','h_rotate_attributes','get_last_error'])
p('C11','Native caches behave as the plain calls and handles never mix',
 'Each created cache gets a handle distinct from every other handle ever handed out for a cache of the same kind (encryption and decryption handles are numbered separately), keeps serving the key and policy it was created with until it is destroyed, and is unaffected by creating, using or destroying other caches. Calls through a live handle give what the corresponding uncached call gives for that key and policy; calls through an unknown or destroyed handle return 1 with an error.',
 ['histories'],'all sequences of create, use and destroy over any number of encryption and decryption caches',
 'The tests create one cache of each kind, use it and destroy it; mixing of handles needs interleaved histories.',
 [FH],[('handle allocation','NEXT_ENCRYPTION_CACHE_ID, NEXT_DECRYPTION_CACHE_ID'),('cache maps','ENCRYPTION_CACHE_MAP, DECRYPTION_CACHE_MAP')],['h_aes_create_encryption_cache','h_aes_create_decryption_cache','h_aes_encrypt_header_using_cache','h_aes_decrypt_header_using_cache','h_aes_destroy_encryption_cache','h_aes_destroy_decryption_cache'])
p('C12','Every attribute a policy admits is usable, before and after rotations',
 'Master keys generated for a policy serve every attribute value the policy can ever hold: adding axes and rotating attributes up to the declared number of creations never makes key generation, delegation or encryption fail or crash. After a rotation, new ciphertexts use the new value: keys issued before cannot open them, keys issued after can open both old and new ones.',
 ['configurations','histories'],'all policies and all sequences of axis additions and rotations up to the limit of attribute creations',
 'Tests use policies far below their capacity; the guarantee is about the last slot and about every rotation history.',
 [ENG,SCH,MSP],[('size of the key arrays','Engine::generate_master_key'),('attribute bounds','Gpsw::key_generation, Gpsw::encrypt'),('rotated values','policy_to_node')],['Engine::generate_master_key','Engine::generate_user_key','Engine::encrypt'])
p('C13','Secrets are drawn fresh and every blinding exponent actually blinds',
 'Each master key, user key, delegated key, ciphertext, encapsulated symmetric key, nonce and block uses newly drawn randomness: every share vector is random apart from the one constraint fixing its sum, two runs with equal inputs give different secrets wherever there is a secret left to choose (a single-share vector is fixed by its sum), and no component published is the unblinded secret.',
 ['inputs','histories'],'all inputs; freshness at every call and for every component',
 'Round-trip tests pass just as well with constant or reused randomness; only looking at how each output depends on the drawn values shows the difference.',
 [SCH,BM,BLS,ENG,ST],[('share vectors','Gpsw::key_generation, key_delegation, key_randomization'),('ciphertext exponent','Gpsw::encrypt'),('master secrets','Gpsw::generate_master_key'),('generator seeding','BilinearMap::gen_random_*'),('encapsulated secret','Engine::generate_symmetric_key')],['Gpsw::generate_master_key','Gpsw::key_generation','Gpsw::encrypt','Engine::generate_symmetric_key'])
p('C14','Both sides of the key encapsulation derive the same symmetric key',
 'The symmetric key returned with an encapsulation equals the key an authorised holder recovers from it, for every requested length, and has exactly the requested length; asking for a shorter length gives a prefix of the longer one. An unauthorised key, or an encapsulation that is truncated or no longer decodes, gives an error and not a key.',
 ['inputs'],'all requested lengths, all attribute lists, all authorised and unauthorised keys',
 'Tests use one length and one key; the derivation must agree for every length and every encapsulated element.',
 [ENG],[('encapsulation','Engine::generate_symmetric_key'),('decapsulation','Engine::decrypt_symmetric_key')],['Engine::generate_symmetric_key','Engine::decrypt_symmetric_key'])
p('C15','Python calls agree with the core and reject bad input with an exception',
 'Every Python entry point returns exactly what the corresponding core operation returns for the decoded arguments, and the one-call encryption is the 4-byte header length, the header and block number 0 of the data bound to the metadata resource id, which the one-call decryption inverts. Undecodable, truncated or inconsistent arguments raise a Python exception and never abort or panic.',
 ['inputs'],'all argument byte strings and all data',
 'The Python demo script makes one successful pass; argument order, framing and error paths need arbitrary inputs.',
 [PY1,PY2],[('key functions','pyo3/generate_gpsw_keys.rs'),('hybrid functions and framing','pyo3/hybrid_gpsw_aes.rs')],['encrypt','decrypt','get_encrypted_header_size','generate_user_private_key'])
p('C16','JavaScript calls agree with the core and reject bad input with an exception',
 'Every WebAssembly entry point returns exactly what the corresponding core operation returns for the decoded arguments, both directly and through encryption and decryption caches: master keys are the 4-byte private key length and both keys, headers the 4-byte symmetric key length, the key and the header (or metadata), an absent resource id is empty and an absent block number 0. Undecodable, truncated or inconsistent arguments and unknown or destroyed cache handles raise a JavaScript exception and never abort the module, every handle stands for exactly what its cache was created with until it is destroyed and is never issued twice, and a refused call leaves every cache usable.',
 ['inputs','histories'],'all argument byte strings, texts and numbers that fit the memory of the module, and all sequences of cache calls',
 'The browser tests make one successful pass each on one key; framing, error paths, 32-bit arithmetic and cache histories need arbitrary inputs and sequences.',
 [W1,W2,W3,ST,ENG],[('key functions','wasm_bindgen/generate_gpsw_keys.rs'),('encryption and its caches','wasm_bindgen/hybrid_gpsw_aes_encryption.rs'),('decryption and its caches','wasm_bindgen/hybrid_gpsw_aes_decryption.rs')],['webassembly_generate_master_keys','webassembly_encrypt_hybrid_header_using_cache','webassembly_decrypt_hybrid_header_using_cache','webassembly_decrypt_hybrid_block'],
 state=[('decryption caches','handle to decryption key','DECRYPTION_CACHE_MAP, NEXT_DECRYPTION_CACHE_ID'),('encryption caches','handle to policy and public key','ENCRYPTION_CACHE_MAP, NEXT_ENCRYPTION_CACHE_ID')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S); assert len(x['title'])<=80; assert x['statement'].count('. ')<=2,x['id']
print(len(P))
