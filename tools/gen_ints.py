#!/usr/bin/env python3
"""Writes units/ints.vu: contracts of standard-library functions that vstd has no specification for (each one an assumption)."""
import re,os,sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(re.findall(r'assume_specification\s*(?:<[^>]*>)?\s*\[([^\]]+)\]', open(f'{V}/units/prelude.vu').read())) | {'u16::wrapping_neg', 'u16::div_ceil', 'u32::swap_bytes'}
o = ['// Contracts of standard-library functions that vstd does not specify.  Written by tools/gen_ints.py; every item is an assumption.']
def spec(name, text):
    if name not in have: o.append(f'pub assume_specification[{name}]{text};')
for t, w in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('u128', 128), ('usize', 64)):
    m = f'{t}::MAX as int'; M = f'0x1{"0" * (w // 4)}int'
    spec(f'{t}::wrapping_neg', f'(a: {t}) -> (r: {t}) ensures r as int == (if a == 0 {{ 0 }} else {{ {M} - a }})')
    for f, op in (('add', '+'), ('sub', '-')):
        spec(f'{t}::overflowing_{f}', f'(a: {t}, b: {t}) -> (r: ({t}, bool)) ensures r.0 as int == (a {op} b) % {M}, r.1 == !(0 <= a {op} b < {M})')
    spec(f'{t}::checked_shl', f'(a: {t}, n: u32) -> (r: Option<{t}>) ensures n < {w} ==> r == Some(a << n), n >= {w} ==> r is None')
    spec(f'{t}::checked_shr', f'(a: {t}, n: u32) -> (r: Option<{t}>) ensures n < {w} ==> r == Some(a >> n), n >= {w} ==> r is None')
    spec(f'{t}::unbounded_shl', f'(a: {t}, n: u32) -> (r: {t}) ensures r == (if n < {w} {{ a << n }} else {{ 0 }})')
    spec(f'{t}::unbounded_shr', f'(a: {t}, n: u32) -> (r: {t}) ensures r == (if n < {w} {{ a >> n }} else {{ 0 }})')
    spec(f'{t}::pow', f'(a: {t}, n: u32) -> (r: {t}) requires vstd::arithmetic::power::pow(a as int, n as nat) < {M} ensures r as int == vstd::arithmetic::power::pow(a as int, n as nat)')
    spec(f'{t}::abs_diff', f'(a: {t}, b: {t}) -> (r: {t}) ensures r as int == (if a < b {{ b - a }} else {{ a - b }})')
    spec(f'{t}::div_ceil', f'(a: {t}, b: {t}) -> (r: {t}) requires b > 0 ensures r == a / b + (if a % b == 0 {{ 0int }} else {{ 1int }})')
    spec(f'{t}::div_euclid', f'(a: {t}, b: {t}) -> (r: {t}) requires b > 0 ensures r == a / b')
    spec(f'{t}::rem_euclid', f'(a: {t}, b: {t}) -> (r: {t}) requires b > 0 ensures r == a % b')
    spec(f'{t}::next_multiple_of', f'(a: {t}, b: {t}) -> (r: {t}) requires b > 0, ((a as int + b as int - 1) / (b as int) * (b as int)) < {M} ensures r == (a as int + b as int - 1) / (b as int) * (b as int)')
    spec(f'{t}::ilog2', f'(x: {t}) -> (r: u32) requires x != 0 ensures r < {w}, (x >> r) == 1')
    spec(f'{t}::checked_ilog2', f'(x: {t}) -> (r: Option<u32>) ensures r is Some <==> x != 0, r is Some ==> r->Some_0 < {w} && (x >> r->Some_0) == 1')
    spec(f'{t}::is_power_of_two', f'(x: {t}) -> (r: bool) ensures r == (x != 0 && (x & ((x - 1) as {t})) == 0)')
spec('u128::trailing_zeros', '(x: u128) -> (r: u32) ensures x == 0 ==> r == 128, x != 0 ==> r < 128 && ((x >> r) & 1u128) == 1 && ((x >> r) << r) == x')
for f, c in (('is_ascii_digit', '48 <= *x <= 57'), ('is_ascii_hexdigit', '48 <= *x <= 57 || 65 <= *x <= 70 || 97 <= *x <= 102'), ('is_ascii_uppercase', '65 <= *x <= 90'), ('is_ascii_lowercase', '97 <= *x <= 122'), ('is_ascii_alphabetic', '65 <= *x <= 90 || 97 <= *x <= 122'), ('is_ascii_alphanumeric', '48 <= *x <= 57 || 65 <= *x <= 90 || 97 <= *x <= 122'), ('is_ascii', '*x < 128'), ('is_ascii_whitespace', '*x == 32 || *x == 9 || *x == 10 || *x == 12 || *x == 13')):
    spec(f'u8::{f}', f'(x: &u8) -> (r: bool) ensures r == ({c})')
spec('u8::to_ascii_lowercase', '(x: &u8) -> (r: u8) ensures r == (if 65 <= *x <= 90 { (*x + 32) as u8 } else { *x })')
spec('u8::to_ascii_uppercase', '(x: &u8) -> (r: u8) ensures r == (if 97 <= *x <= 122 { (*x - 32) as u8 } else { *x })')
for f, c in (('is_lt', 'x is Less'), ('is_gt', 'x is Greater'), ('is_eq', 'x is Equal'), ('is_le', '!(x is Greater)'), ('is_ge', '!(x is Less)'), ('is_ne', '!(x is Equal)')):
    spec(f'core::cmp::Ordering::{f}', f'(x: core::cmp::Ordering) -> (r: bool) ensures r == ({c})')
spec('core::cmp::Ordering::reverse', '(x: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == (match x { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less })')
spec('core::cmp::Ordering::then', '(x: core::cmp::Ordering, y: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == (if x is Equal { y } else { x })')
def gspec(g, name, text): 
    if name not in have: o.append(f'pub assume_specification<{g}>[{name}]{text};')
gspec('T', 'core::mem::replace', '(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s')
gspec('T', '<[T]>::reverse', '(s: &mut [T]) ensures final(s)@ == old(s)@.reverse()')
gspec('T', '<[T]>::rotate_left', '(s: &mut [T], k: usize) requires k <= old(s)@.len() ensures final(s)@ == old(s)@.skip(k as int) + old(s)@.take(k as int)')
gspec('T', '<[T]>::rotate_right', '(s: &mut [T], k: usize) requires k <= old(s)@.len() ensures final(s)@ == old(s)@.skip(old(s)@.len() - k) + old(s)@.take(old(s)@.len() - k)')
gspec('T', '<[T]>::swap_with_slice', '(s: &mut [T], t: &mut [T]) requires old(s)@.len() == old(t)@.len() ensures final(s)@ == old(t)@, final(t)@ == old(s)@')
gspec('T', '<[T]>::split_last', "(s: &[T]) -> (r: Option<(&T, &[T])>) ensures s@.len() == 0 ==> r is None, s@.len() > 0 ==> r is Some && *r->Some_0.0 == s@.last() && r->Some_0.1@ == s@.drop_last()")
gspec('T', 'Option::<T>::or', '(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b })')
gspec("'a, T: Copy", "Option::<&'a T>::copied", "(a: Option<&'a T>) -> (r: Option<T>) ensures a is None ==> r is None, a is Some ==> r == Some(*a->Some_0)")
gspec('T, E', 'Result::<T, E>::unwrap_or', '(a: Result<T, E>, d: T) -> (r: T) ensures r == (if a is Ok { a->Ok_0 } else { d })')
gspec('T', 'bool::then_some', '(b: bool, x: T) -> (r: Option<T>) ensures r == (if b { Some(x) } else { None })')
open(f'{V}/units/ints.vu', 'w').write('\n'.join(o) + '\n')
