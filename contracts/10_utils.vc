@@module writer::utils
pub broadcast proof fn lemma_uvar_len(n: nat)
    ensures 1 <= #[trigger] uvar(n).len(), n < 0x1_0000_0000 ==> uvar(n).len() <= 5
{
    reveal_with_fuel(uvar, 6);
    lemma_uvar_pos(n);
}
pub proof fn lemma_uvar_pos(n: nat) ensures 1 <= uvar(n).len() decreases n { if n >= 128 { lemma_uvar_pos(n / 128); } }
pub proof fn lemma_uvar_one(n: nat)
    ensures n < 128 ==> uvar(n) == seq![n as u8]
{}
pub proof fn lemma_mask(x: u32)
    ensures
        (x & 0xFFFFFF80 != 0) == (x >= 128),
        ((x & 0x7F) | 0x80) as u8 == (x as nat % 128 + 128) as u8,
        (x & 0x7F) as u8 == (x as nat % 128) as u8,
        (x >> 7) == x as nat / 128,
        x < 128 ==> (x & 0x7F) == x,
        ((x as u8) & 0x7F) | 0x80 == (x as nat % 128 + 128) as u8,
        (x as u8) | 0x80 == (x as nat % 128 + 128) as u8,
        (x & !0x7Fu32 != 0) == (x >= 128),
{
    assert((x & !0x7Fu32 != 0) == (x >= 128)) by (bit_vector);
    assert(((#[verifier::truncate] (x as u8)) & 0x7F) | 0x80 == #[verifier::truncate] ((x % 128 + 128) as u8)) by (bit_vector);
    assert((#[verifier::truncate] (x as u8)) | 0x80 == #[verifier::truncate] ((x % 128 + 128) as u8)) by (bit_vector);
    assert((x & 0xFFFFFF80 != 0) == (x >= 128)) by (bit_vector);
    assert((x & 0x7F) == x % 128) by (bit_vector);
    assert(((x & 0x7F) | 0x80) == x % 128 + 128) by (bit_vector);
    assert((x >> 7) == x / 128) by (bit_vector);
}
pub proof fn lemma_zig(n: i32)
    ensures
        n < 0 ==> #[verifier::truncate] ((!((n << 1) as i32)) as u32) == zig(n),
        n >= 0 ==> #[verifier::truncate] ((n << 1) as u32) == zig(n),
        #[verifier::truncate] (((n << 1) ^ (n >> 31)) as u32) == zig(n),
        (#[verifier::truncate] ((n << 1) as u32)) ^ (#[verifier::truncate] ((n >> 31) as u32)) == zig(n),
{
    assert(n < 0 ==> (n << 1) ^ (n >> 31) == !(n << 1)) by (bit_vector);
    assert(n >= 0 ==> (n << 1) ^ (n >> 31) == (n << 1)) by (bit_vector);
    assert((#[verifier::truncate] ((n << 1) as u32)) ^ (#[verifier::truncate] ((n >> 31) as u32)) == #[verifier::truncate] (((n << 1) ^ (n >> 31)) as u32)) by (bit_vector);
    assert(n >= 0 ==> #[verifier::truncate] ((n << 1) as u32) == 2u32 * #[verifier::truncate] (n as u32)) by (bit_vector);
    assert(n < 0 ==> #[verifier::truncate] ((!(n << 1)) as u32) == 2u32 * #[verifier::truncate] ((!n) as u32) + 1) by (bit_vector);
    assert(n < 0 ==> #[verifier::truncate] ((!n) as u32) == -n - 1) by (bit_vector);
}
@@fn writer::utils::write_var_u32
@@ret r
    requires
        (*old(buffer)).wf(),
    ensures
        wrote(*old(buffer), *final(buffer), r is Ok, uvar(num as nat)),
        r is Ok ==> r->Ok_0 == uvar(num as nat).len(),
@@loop 0
        invariant
            1 <= u8i(position),
            u8i(position) - 1 + uvar(number as nat).len() == uvar(num as nat).len(),
            (*buffer).wf(),
            (*buffer).whole() == (*old(buffer)).whole(),
            (*buffer).id() == (*old(buffer)).id(),
            (*buffer).failed() == (*old(buffer)).failed(),
            (*buffer).out() + uvar(number as nat) =~= (*old(buffer)).out() + uvar(num as nat),
            uvar(num as nat).len() <= 5,
        decreases number,
@@before 0
    proof { lemma_uvar_len(num as nat); lemma_mask(number); }
@@in 0
        proof { lemma_mask(number); lemma_uvar_pos((number / 128) as nat); }
@@inend 0
        proof { lemma_mask(number); }
@@after 0
    proof { lemma_mask(number); }
@@fn writer::utils::size_var_u32
@@ret r
    ensures
        r == uvar(num as nat).len(),
@@loop 0
        invariant
            1 <= u8i(position),
            u8i(position) - 1 + uvar(value as nat).len() == uvar(num as nat).len(),
            uvar(num as nat).len() <= 5,
        decreases value,
@@before 0
    proof { lemma_uvar_len(num as nat); lemma_mask(value); }
@@in 0
        proof { lemma_mask(value); lemma_uvar_pos((value / 128) as nat); }
@@inend 0
        proof { lemma_mask(value); }
@@after 0
    proof { lemma_mask(value); }
@@fn writer::utils::write_var_i32
@@ret r
    requires
        (*old(buffer)).wf(),
    ensures
        wrote(*old(buffer), *final(buffer), r is Ok, ivar(num)),
        r is Ok ==> r->Ok_0 == ivar(num).len(),
@@entry
    proof { lemma_zig(num); }
@@fn writer::utils::size_var_i32
@@ret r
    ensures
        r == ivar(num).len(),
@@entry
    proof { lemma_zig(num); }
@@module writer::utils
pub open spec fn starts(s: Seq<u8>, t: Seq<u8>) -> bool { t.len() <= s.len() && s.subrange(0, t.len() as int) == t }
pub proof fn lemma_group(value: u32, x: u32, i: u8, p: u32)
    requires
        x < 128, value < p, x * p < 0x1_0000_0000,
        (i == 0 && p == 1) || (i == 7 && p == 128) || (i == 14 && p == 16384) || (i == 21 && p == 2097152) || (i == 28 && p == 268435456),
    ensures
        value | (x << i) == value + x * p,
{
    assert(value < 1u32 ==> value | (x << 0u32) == value + x) by (bit_vector) requires x < 128;
    assert(value < 128u32 ==> value | (x << 7u32) == value + x * 128) by (bit_vector) requires x < 128;
    assert(value < 16384u32 ==> value | (x << 14u32) == value + x * 16384) by (bit_vector) requires x < 128;
    assert(value < 2097152u32 ==> value | (x << 21u32) == value + x * 2097152) by (bit_vector) requires x < 128;
    assert(value < 268435456u32 && x < 16 ==> value | (x << 28u32) == value + x * 268435456) by (bit_vector);
}
pub proof fn lemma_byte(b: u8)
    ensures
        (b & 0x80 != 0) == (b >= 128),
        b >= 128 ==> (b & 0x7F) == b - 128,
{
    assert((b & 0x80 != 0) == (b >= 128)) by (bit_vector);
    assert(b >= 128 ==> (b & 0x7F) == sub(b, 128)) by (bit_vector);
}
pub proof fn lemma_steps(num: nat, value: nat, rest: nat, p: nat)
    requires num == value + rest * p
    ensures
        num == value + (rest % 128) * p + (rest / 128) * (p * 128),
        (rest % 128) * p <= num,
        rest >= 128 ==> 128 * p <= num,
        rest % 128 < 128,
        value < p ==> value + (rest % 128) * p < p * 128,
{
    assert(rest == 128 * (rest / 128) + rest % 128);
    assert(rest * p == 128 * (rest / 128) * p + (rest % 128) * p) by (nonlinear_arith) requires rest == 128 * (rest / 128) + rest % 128;
    assert(128 * (rest / 128) * p == (rest / 128) * (p * 128)) by (nonlinear_arith);
    assert((rest % 128) * p <= 127 * p) by (nonlinear_arith) requires rest % 128 <= 127;
    assert(rest >= 128 ==> 128 * p <= rest * p) by (nonlinear_arith);
    assert((rest / 128) * (p * 128) >= 0) by (nonlinear_arith);
}
@@fn writer::utils::read_byte
@@ret r
    ensures
        r is Ok ==> (*old(buffer)).input() =~= seq![r->Ok_0] + (*final(buffer)).input(),
@@fn writer::utils::read_var_u32
@@ret r
    requires
        exists|n: u32| starts((*old(buffer)).input(), #[trigger] uvar(n as nat)),
    ensures
        r is Ok ==> (*old(buffer)).input() =~= uvar(r->Ok_0 as nat) + (*final(buffer)).input(),
@@before 0
    let ghost input = (*old(buffer)).input();
    let ghost num: u32 = choose|n: u32| starts(input, #[trigger] uvar(n as nat));
    let ghost tail = input.skip(uvar(num as nat).len() as int);
    let ghost mut rest: nat = num as nat;
    let ghost mut p: u32 = 1u32;
    proof {
        lemma_byte(b);
        assert(input =~= uvar(num as nat) + tail);
        lemma_uvar_pos(num as nat);
        assert((seq![b] + (*buffer).input())[0] == b);
    }
@@loop 0
        invariant
            seq![b] + (*buffer).input() == uvar(rest) + tail,
            input == uvar(num as nat) + tail,
            input == (*old(buffer)).input(),
            num == value + rest * p,
            rest >= 1 || p == 1,
            value < p,
            (i == 0 && p == 1) || (i == 7 && p == 128) || (i == 14 && p == 16384) || (i == 21 && p == 2097152) || (i == 28 && p == 268435456),
            (b & 0x80 != 0) == (rest >= 128),
            rest >= 128 ==> b == rest % 128 + 128,
            rest < 128 ==> b == rest,
        ensures
            rest < 128,
        decreases rest,
@@in 0
        let ghost rest0 = rest;
        proof {
            lemma_byte(b);
            lemma_steps(num as nat, value as nat, rest, p as nat);
            lemma_group(value, (rest % 128) as u32, i, p);
            assert((*buffer).input() =~= uvar(rest / 128) + tail) by {
                assert((seq![b] + (*buffer).input()).skip(1) =~= (*buffer).input());
                assert((uvar(rest) + tail).skip(1) =~= uvar(rest / 128) + tail);
            }
            rest = rest / 128;
            p = (p * 128) as u32;
        }
@@inend 0
        proof {
            lemma_byte(b);
            lemma_uvar_pos(rest);
            assert((seq![b] + (*buffer).input())[0] == b);
        }
@@after 0
    proof {
        lemma_byte(b);
        lemma_steps(num as nat, value as nat, rest, p as nat);
        lemma_group(value, b as u32, i, p);
        assert((seq![b] + (*buffer).input()).skip(1) =~= (*buffer).input());
        assert((uvar(rest) + tail).skip(1) =~= tail);
    }
