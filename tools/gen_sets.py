#!/usr/bin/env python3
"""Writes harness/src/sets_gen.rs: attribute enums for every non-empty selection of five interacting
attribute types, every listing order of four of them, and orders of all 32."""
import itertools
V = ["XorMappedAddress", "Software", "Fingerprint", "MessageIntegrity", "Data"]
ALL = """MappedAddress ChangeRequest Username MessageIntegrity ErrorCode UnknownAttributes ChannelNumber Lifetime
XorPeerAddress Data Realm Nonce XorRelayAddress RequestedAddressFamily EvenPort RequestedTransport DontFragment
XorMappedAddress ReservationToken Priority UseCandidate ResponsePort AdditionalAddressFamily XorMappedAddress2 Software
AlternateServer Fingerprint IceControlled IceControlling ResponseOrigin OtherAddress MobilityTicket""".split()
names = []
out = ["// Written by tools/gen_sets.py; do not edit.", "use crate::conv::*;", "use crate::p_set::{ops, SetOps};", ""]
def add(kind, l):
    n = "S%d" % len(names)
    names.append((n, kind + " " + "+".join(l) if len(l) < 6 else kind))
    out.append("sel!(%s, %sDecoder, %sEncoder, [%s]);" % (n, n, n, ", ".join(l)))
for k in range(1, 6):
    for c in itertools.combinations(V, k):
        add("selection", list(c))
for p in itertools.permutations(V[:4]):
    add("order", list(p))
add("reverse of all", ALL[::-1])
add("rotated all", ALL[16:] + ALL[:16])
add("odd ones first", ALL[1::2] + ALL[::2])
out.insert(4, """macro_rules! sel {
    ($e:ident, $d:ident, $n:ident, [$($t:ident),*]) => {
        stun_codec::define_attribute_enums!($e, $d, $n, [$($t),*]);
        crate::impl_set!($e, $e, [$($t),*]);
    };
}""")
out.append("pub fn generated() -> Vec<SetOps> {\n    vec![")
for n, d in names:
    out.append('        ops::<%s>("%s"),' % (n, d))
out.append("    ]\n}")
print("\n".join(out))
