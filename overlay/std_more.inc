// specifications of functions of the standard library that vstd does not have (trusted)
pub assume_specification [i32::unsigned_abs] (x: i32) -> (r: u32) ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i32::is_negative] (x: i32) -> (r: bool) ensures r == (x < 0);
pub assume_specification [i32::is_positive] (x: i32) -> (r: bool) ensures r == (x > 0);
pub assume_specification [i32::checked_neg] (x: i32) -> (r: Option<i32>) ensures r == (if x == i32::MIN { None } else { Some((-x) as i32) });
pub assume_specification [i32::wrapping_neg] (x: i32) -> (r: i32) ensures r == (if x == i32::MIN { x } else { (-x) as i32 });
pub assume_specification [i32::saturating_neg] (x: i32) -> (r: i32) ensures r == (if x == i32::MIN { i32::MAX } else { (-x) as i32 });
pub assume_specification [i64::unsigned_abs] (x: i64) -> (r: u64) ensures r as int == (if x < 0 { -(x as int) } else { x as int });
pub assume_specification [i64::is_negative] (x: i64) -> (r: bool) ensures r == (x < 0);
pub assume_specification [i64::is_positive] (x: i64) -> (r: bool) ensures r == (x > 0);
pub assume_specification [i64::checked_neg] (x: i64) -> (r: Option<i64>) ensures r == (if x == i64::MIN { None } else { Some((-x) as i64) });
pub assume_specification [i64::wrapping_neg] (x: i64) -> (r: i64) ensures r == (if x == i64::MIN { x } else { (-x) as i64 });
pub assume_specification [i64::saturating_neg] (x: i64) -> (r: i64) ensures r == (if x == i64::MIN { i64::MAX } else { (-x) as i64 });
pub assume_specification [u8::abs_diff] (x: u8, y: u8) -> (r: u8) ensures r as int == (if x < y { y - x } else { x - y });
pub assume_specification [u8::rem_euclid] (x: u8, y: u8) -> (r: u8) requires y != 0 ensures r == x % y;
pub assume_specification [u8::div_ceil] (x: u8, y: u8) -> (r: u8) requires y != 0 ensures r as int == (x as int + y as int - 1) / (y as int);
pub assume_specification [u8::overflowing_add] (x: u8, y: u8) -> (r: (u8, bool)) ensures r.1 == (x + y > u8::MAX), !r.1 ==> r.0 == x + y, r.1 ==> r.0 == x + y - u8::MAX - 1;
pub assume_specification [u8::overflowing_sub] (x: u8, y: u8) -> (r: (u8, bool)) ensures r.1 == (x < y), !r.1 ==> r.0 == x - y, r.1 ==> r.0 == x - y + u8::MAX + 1;
pub assume_specification [u8::count_ones] (x: u8) -> (r: u32) ensures r <= 64;
pub assume_specification [u8::swap_bytes] (x: u8) -> (r: u8);
pub assume_specification [u8::is_power_of_two] (x: u8) -> (r: bool) ensures x == 0 ==> !r, x == 1 || x == 2 || x == 4 || x == 8 ==> r;
pub assume_specification [u32::abs_diff] (x: u32, y: u32) -> (r: u32) ensures r as int == (if x < y { y - x } else { x - y });
pub assume_specification [u32::rem_euclid] (x: u32, y: u32) -> (r: u32) requires y != 0 ensures r == x % y;
pub assume_specification [u32::div_ceil] (x: u32, y: u32) -> (r: u32) requires y != 0 ensures r as int == (x as int + y as int - 1) / (y as int);
pub assume_specification [u32::overflowing_add] (x: u32, y: u32) -> (r: (u32, bool)) ensures r.1 == (x + y > u32::MAX), !r.1 ==> r.0 == x + y, r.1 ==> r.0 == x + y - u32::MAX - 1;
pub assume_specification [u32::overflowing_sub] (x: u32, y: u32) -> (r: (u32, bool)) ensures r.1 == (x < y), !r.1 ==> r.0 == x - y, r.1 ==> r.0 == x - y + u32::MAX + 1;
pub assume_specification [u32::count_ones] (x: u32) -> (r: u32) ensures r <= 64;
pub assume_specification [u32::swap_bytes] (x: u32) -> (r: u32);
pub assume_specification [u32::is_power_of_two] (x: u32) -> (r: bool) ensures x == 0 ==> !r, x == 1 || x == 2 || x == 4 || x == 8 ==> r;
pub assume_specification [u64::abs_diff] (x: u64, y: u64) -> (r: u64) ensures r as int == (if x < y { y - x } else { x - y });
pub assume_specification [u64::rem_euclid] (x: u64, y: u64) -> (r: u64) requires y != 0 ensures r == x % y;
pub assume_specification [u64::div_ceil] (x: u64, y: u64) -> (r: u64) requires y != 0 ensures r as int == (x as int + y as int - 1) / (y as int);
pub assume_specification [u64::overflowing_add] (x: u64, y: u64) -> (r: (u64, bool)) ensures r.1 == (x + y > u64::MAX), !r.1 ==> r.0 == x + y, r.1 ==> r.0 == x + y - u64::MAX - 1;
pub assume_specification [u64::overflowing_sub] (x: u64, y: u64) -> (r: (u64, bool)) ensures r.1 == (x < y), !r.1 ==> r.0 == x - y, r.1 ==> r.0 == x - y + u64::MAX + 1;
pub assume_specification [u64::count_ones] (x: u64) -> (r: u32) ensures r <= 64;
pub assume_specification [u64::swap_bytes] (x: u64) -> (r: u64);
pub assume_specification [u64::is_power_of_two] (x: u64) -> (r: bool) ensures x == 0 ==> !r, x == 1 || x == 2 || x == 4 || x == 8 ==> r;
pub assume_specification [usize::abs_diff] (x: usize, y: usize) -> (r: usize) ensures r as int == (if x < y { y - x } else { x - y });
pub assume_specification [usize::rem_euclid] (x: usize, y: usize) -> (r: usize) requires y != 0 ensures r == x % y;
pub assume_specification [usize::div_ceil] (x: usize, y: usize) -> (r: usize) requires y != 0 ensures r as int == (x as int + y as int - 1) / (y as int);
pub assume_specification [usize::overflowing_add] (x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x + y > usize::MAX), !r.1 ==> r.0 == x + y, r.1 ==> r.0 == x + y - usize::MAX - 1;
pub assume_specification [usize::overflowing_sub] (x: usize, y: usize) -> (r: (usize, bool)) ensures r.1 == (x < y), !r.1 ==> r.0 == x - y, r.1 ==> r.0 == x - y + usize::MAX + 1;
pub assume_specification [usize::count_ones] (x: usize) -> (r: u32) ensures r <= 64;
pub assume_specification [usize::swap_bytes] (x: usize) -> (r: usize);
pub assume_specification [usize::is_power_of_two] (x: usize) -> (r: bool) ensures x == 0 ==> !r, x == 1 || x == 2 || x == 4 || x == 8 ==> r;
pub assume_specification [u8::is_ascii_digit] (x: &u8) -> (r: bool) ensures r == (48 <= *x <= 57);
pub assume_specification [char::is_ascii_digit] (x: &char) -> (r: bool) ensures r == ('0' <= *x && *x <= '9');
pub assume_specification <T> [std::mem::replace] (d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v;
pub assume_specification <T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification <T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub assume_specification <T> [std::mem::drop] (x: T);
pub assume_specification <T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
pub assume_specification <T> [Option::<T>::xor] (o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None });
pub assume_specification <T> [Option::<T>::replace] (o: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(v);
pub assume_specification <T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, v: T) -> (r: T) ensures r == (match o { Ok(x) => x, Err(_) => v });
pub assume_specification <'a, T> [Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>) where T: Copy ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification <T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) where T: Clone ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> cloned(#[trigger] s@[i], r@[i]);
