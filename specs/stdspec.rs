// assumed contracts of standard-library functions (listed in every evidence file that uses them)
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures <T as PartialEqSpec>::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x));
pub assume_specification<T: Clone>[ <T as std::borrow::ToOwned>::to_owned ](x: &T) -> (r: T)
    ensures vstd::pervasive::cloned(*x, r);
// text functions a key or a name might be put through: nothing is known of their result but what it depends on
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub assume_specification[ str::trim ](s: &str) -> (r: &str) ensures r@ == trimmed(s@);
pub assume_specification[ str::trim_start ](s: &str) -> (r: &str);
pub assume_specification[ str::trim_end ](s: &str) -> (r: &str);
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String) ensures r@ == lower(s@);
pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String) ensures r@ == upper(s@);
pub assume_specification[ str::to_ascii_lowercase ](s: &str) -> (r: String);
pub assume_specification[ str::to_ascii_uppercase ](s: &str) -> (r: String);
