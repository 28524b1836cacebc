// ---------------------------------------------------------------------------------------------
// Stand-in for std's `String` (and `str`): a sequence of UTF-8 bytes.
// ---------------------------------------------------------------------------------------------
#[verifier::external_body] #[derive(Debug)] pub struct String { v: Vec<u8> }
/// Number of Unicode characters of a UTF-8 text.
pub uninterp spec fn char_count(b: Seq<u8>) -> nat;
pub open spec fn ascii(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]) < 0x80 }
/// Each byte of an ASCII text is a character.
pub broadcast axiom fn ascii_chars(b: Seq<u8>) ensures ascii(b) ==> #[trigger] char_count(b) == b.len();
/// A text of one byte is one ASCII character.
pub broadcast axiom fn one_byte(s: &String) ensures (#[trigger] s@).len() == 1 ==> ascii(s@);
pub struct VChars { pub n: Ghost<nat> }
impl VChars {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.n@ { unimplemented!() }
}
impl String {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_ascii(&self) -> (r: bool) ensures r == ascii(self@) { unimplemented!() }
    pub fn chars(&self) -> (r: VChars) ensures r.n@ == char_count(self@) { VChars { n: Ghost(char_count(self@)) } }
}
impl Clone for String { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
