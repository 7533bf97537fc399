// Written by tools/gen_sets.py; do not edit.
use crate::conv::*;
use crate::p_set::{ops, SetOps};

macro_rules! sel {
    ($e:ident, $d:ident, $n:ident, [$($t:ident),*]) => {
        stun_codec::define_attribute_enums!($e, $d, $n, [$($t),*]);
        crate::impl_set!($e, $e, [$($t),*]);
    };
}
sel!(S0, S0Decoder, S0Encoder, [XorMappedAddress]);
sel!(S1, S1Decoder, S1Encoder, [Software]);
sel!(S2, S2Decoder, S2Encoder, [Fingerprint]);
sel!(S3, S3Decoder, S3Encoder, [MessageIntegrity]);
sel!(S4, S4Decoder, S4Encoder, [Data]);
sel!(S5, S5Decoder, S5Encoder, [XorMappedAddress, Software]);
sel!(S6, S6Decoder, S6Encoder, [XorMappedAddress, Fingerprint]);
sel!(S7, S7Decoder, S7Encoder, [XorMappedAddress, MessageIntegrity]);
sel!(S8, S8Decoder, S8Encoder, [XorMappedAddress, Data]);
sel!(S9, S9Decoder, S9Encoder, [Software, Fingerprint]);
sel!(S10, S10Decoder, S10Encoder, [Software, MessageIntegrity]);
sel!(S11, S11Decoder, S11Encoder, [Software, Data]);
sel!(S12, S12Decoder, S12Encoder, [Fingerprint, MessageIntegrity]);
sel!(S13, S13Decoder, S13Encoder, [Fingerprint, Data]);
sel!(S14, S14Decoder, S14Encoder, [MessageIntegrity, Data]);
sel!(S15, S15Decoder, S15Encoder, [XorMappedAddress, Software, Fingerprint]);
sel!(S16, S16Decoder, S16Encoder, [XorMappedAddress, Software, MessageIntegrity]);
sel!(S17, S17Decoder, S17Encoder, [XorMappedAddress, Software, Data]);
sel!(S18, S18Decoder, S18Encoder, [XorMappedAddress, Fingerprint, MessageIntegrity]);
sel!(S19, S19Decoder, S19Encoder, [XorMappedAddress, Fingerprint, Data]);
sel!(S20, S20Decoder, S20Encoder, [XorMappedAddress, MessageIntegrity, Data]);
sel!(S21, S21Decoder, S21Encoder, [Software, Fingerprint, MessageIntegrity]);
sel!(S22, S22Decoder, S22Encoder, [Software, Fingerprint, Data]);
sel!(S23, S23Decoder, S23Encoder, [Software, MessageIntegrity, Data]);
sel!(S24, S24Decoder, S24Encoder, [Fingerprint, MessageIntegrity, Data]);
sel!(S25, S25Decoder, S25Encoder, [XorMappedAddress, Software, Fingerprint, MessageIntegrity]);
sel!(S26, S26Decoder, S26Encoder, [XorMappedAddress, Software, Fingerprint, Data]);
sel!(S27, S27Decoder, S27Encoder, [XorMappedAddress, Software, MessageIntegrity, Data]);
sel!(S28, S28Decoder, S28Encoder, [XorMappedAddress, Fingerprint, MessageIntegrity, Data]);
sel!(S29, S29Decoder, S29Encoder, [Software, Fingerprint, MessageIntegrity, Data]);
sel!(S30, S30Decoder, S30Encoder, [XorMappedAddress, Software, Fingerprint, MessageIntegrity, Data]);
sel!(S31, S31Decoder, S31Encoder, [XorMappedAddress, Software, Fingerprint, MessageIntegrity]);
sel!(S32, S32Decoder, S32Encoder, [XorMappedAddress, Software, MessageIntegrity, Fingerprint]);
sel!(S33, S33Decoder, S33Encoder, [XorMappedAddress, Fingerprint, Software, MessageIntegrity]);
sel!(S34, S34Decoder, S34Encoder, [XorMappedAddress, Fingerprint, MessageIntegrity, Software]);
sel!(S35, S35Decoder, S35Encoder, [XorMappedAddress, MessageIntegrity, Software, Fingerprint]);
sel!(S36, S36Decoder, S36Encoder, [XorMappedAddress, MessageIntegrity, Fingerprint, Software]);
sel!(S37, S37Decoder, S37Encoder, [Software, XorMappedAddress, Fingerprint, MessageIntegrity]);
sel!(S38, S38Decoder, S38Encoder, [Software, XorMappedAddress, MessageIntegrity, Fingerprint]);
sel!(S39, S39Decoder, S39Encoder, [Software, Fingerprint, XorMappedAddress, MessageIntegrity]);
sel!(S40, S40Decoder, S40Encoder, [Software, Fingerprint, MessageIntegrity, XorMappedAddress]);
sel!(S41, S41Decoder, S41Encoder, [Software, MessageIntegrity, XorMappedAddress, Fingerprint]);
sel!(S42, S42Decoder, S42Encoder, [Software, MessageIntegrity, Fingerprint, XorMappedAddress]);
sel!(S43, S43Decoder, S43Encoder, [Fingerprint, XorMappedAddress, Software, MessageIntegrity]);
sel!(S44, S44Decoder, S44Encoder, [Fingerprint, XorMappedAddress, MessageIntegrity, Software]);
sel!(S45, S45Decoder, S45Encoder, [Fingerprint, Software, XorMappedAddress, MessageIntegrity]);
sel!(S46, S46Decoder, S46Encoder, [Fingerprint, Software, MessageIntegrity, XorMappedAddress]);
sel!(S47, S47Decoder, S47Encoder, [Fingerprint, MessageIntegrity, XorMappedAddress, Software]);
sel!(S48, S48Decoder, S48Encoder, [Fingerprint, MessageIntegrity, Software, XorMappedAddress]);
sel!(S49, S49Decoder, S49Encoder, [MessageIntegrity, XorMappedAddress, Software, Fingerprint]);
sel!(S50, S50Decoder, S50Encoder, [MessageIntegrity, XorMappedAddress, Fingerprint, Software]);
sel!(S51, S51Decoder, S51Encoder, [MessageIntegrity, Software, XorMappedAddress, Fingerprint]);
sel!(S52, S52Decoder, S52Encoder, [MessageIntegrity, Software, Fingerprint, XorMappedAddress]);
sel!(S53, S53Decoder, S53Encoder, [MessageIntegrity, Fingerprint, XorMappedAddress, Software]);
sel!(S54, S54Decoder, S54Encoder, [MessageIntegrity, Fingerprint, Software, XorMappedAddress]);
sel!(S55, S55Decoder, S55Encoder, [MobilityTicket, OtherAddress, ResponseOrigin, IceControlling, IceControlled, Fingerprint, AlternateServer, Software, XorMappedAddress2, AdditionalAddressFamily, ResponsePort, UseCandidate, Priority, ReservationToken, XorMappedAddress, DontFragment, RequestedTransport, EvenPort, RequestedAddressFamily, XorRelayAddress, Nonce, Realm, Data, XorPeerAddress, Lifetime, ChannelNumber, UnknownAttributes, ErrorCode, MessageIntegrity, Username, ChangeRequest, MappedAddress]);
sel!(S56, S56Decoder, S56Encoder, [DontFragment, XorMappedAddress, ReservationToken, Priority, UseCandidate, ResponsePort, AdditionalAddressFamily, XorMappedAddress2, Software, AlternateServer, Fingerprint, IceControlled, IceControlling, ResponseOrigin, OtherAddress, MobilityTicket, MappedAddress, ChangeRequest, Username, MessageIntegrity, ErrorCode, UnknownAttributes, ChannelNumber, Lifetime, XorPeerAddress, Data, Realm, Nonce, XorRelayAddress, RequestedAddressFamily, EvenPort, RequestedTransport]);
sel!(S57, S57Decoder, S57Encoder, [ChangeRequest, MessageIntegrity, UnknownAttributes, Lifetime, Data, Nonce, RequestedAddressFamily, RequestedTransport, XorMappedAddress, Priority, ResponsePort, XorMappedAddress2, AlternateServer, IceControlled, ResponseOrigin, MobilityTicket, MappedAddress, Username, ErrorCode, ChannelNumber, XorPeerAddress, Realm, XorRelayAddress, EvenPort, DontFragment, ReservationToken, UseCandidate, AdditionalAddressFamily, Software, Fingerprint, IceControlling, OtherAddress]);
pub fn generated() -> Vec<SetOps> {
    vec![
        ops::<S0>("selection XorMappedAddress"),
        ops::<S1>("selection Software"),
        ops::<S2>("selection Fingerprint"),
        ops::<S3>("selection MessageIntegrity"),
        ops::<S4>("selection Data"),
        ops::<S5>("selection XorMappedAddress+Software"),
        ops::<S6>("selection XorMappedAddress+Fingerprint"),
        ops::<S7>("selection XorMappedAddress+MessageIntegrity"),
        ops::<S8>("selection XorMappedAddress+Data"),
        ops::<S9>("selection Software+Fingerprint"),
        ops::<S10>("selection Software+MessageIntegrity"),
        ops::<S11>("selection Software+Data"),
        ops::<S12>("selection Fingerprint+MessageIntegrity"),
        ops::<S13>("selection Fingerprint+Data"),
        ops::<S14>("selection MessageIntegrity+Data"),
        ops::<S15>("selection XorMappedAddress+Software+Fingerprint"),
        ops::<S16>("selection XorMappedAddress+Software+MessageIntegrity"),
        ops::<S17>("selection XorMappedAddress+Software+Data"),
        ops::<S18>("selection XorMappedAddress+Fingerprint+MessageIntegrity"),
        ops::<S19>("selection XorMappedAddress+Fingerprint+Data"),
        ops::<S20>("selection XorMappedAddress+MessageIntegrity+Data"),
        ops::<S21>("selection Software+Fingerprint+MessageIntegrity"),
        ops::<S22>("selection Software+Fingerprint+Data"),
        ops::<S23>("selection Software+MessageIntegrity+Data"),
        ops::<S24>("selection Fingerprint+MessageIntegrity+Data"),
        ops::<S25>("selection XorMappedAddress+Software+Fingerprint+MessageIntegrity"),
        ops::<S26>("selection XorMappedAddress+Software+Fingerprint+Data"),
        ops::<S27>("selection XorMappedAddress+Software+MessageIntegrity+Data"),
        ops::<S28>("selection XorMappedAddress+Fingerprint+MessageIntegrity+Data"),
        ops::<S29>("selection Software+Fingerprint+MessageIntegrity+Data"),
        ops::<S30>("selection XorMappedAddress+Software+Fingerprint+MessageIntegrity+Data"),
        ops::<S31>("order XorMappedAddress+Software+Fingerprint+MessageIntegrity"),
        ops::<S32>("order XorMappedAddress+Software+MessageIntegrity+Fingerprint"),
        ops::<S33>("order XorMappedAddress+Fingerprint+Software+MessageIntegrity"),
        ops::<S34>("order XorMappedAddress+Fingerprint+MessageIntegrity+Software"),
        ops::<S35>("order XorMappedAddress+MessageIntegrity+Software+Fingerprint"),
        ops::<S36>("order XorMappedAddress+MessageIntegrity+Fingerprint+Software"),
        ops::<S37>("order Software+XorMappedAddress+Fingerprint+MessageIntegrity"),
        ops::<S38>("order Software+XorMappedAddress+MessageIntegrity+Fingerprint"),
        ops::<S39>("order Software+Fingerprint+XorMappedAddress+MessageIntegrity"),
        ops::<S40>("order Software+Fingerprint+MessageIntegrity+XorMappedAddress"),
        ops::<S41>("order Software+MessageIntegrity+XorMappedAddress+Fingerprint"),
        ops::<S42>("order Software+MessageIntegrity+Fingerprint+XorMappedAddress"),
        ops::<S43>("order Fingerprint+XorMappedAddress+Software+MessageIntegrity"),
        ops::<S44>("order Fingerprint+XorMappedAddress+MessageIntegrity+Software"),
        ops::<S45>("order Fingerprint+Software+XorMappedAddress+MessageIntegrity"),
        ops::<S46>("order Fingerprint+Software+MessageIntegrity+XorMappedAddress"),
        ops::<S47>("order Fingerprint+MessageIntegrity+XorMappedAddress+Software"),
        ops::<S48>("order Fingerprint+MessageIntegrity+Software+XorMappedAddress"),
        ops::<S49>("order MessageIntegrity+XorMappedAddress+Software+Fingerprint"),
        ops::<S50>("order MessageIntegrity+XorMappedAddress+Fingerprint+Software"),
        ops::<S51>("order MessageIntegrity+Software+XorMappedAddress+Fingerprint"),
        ops::<S52>("order MessageIntegrity+Software+Fingerprint+XorMappedAddress"),
        ops::<S53>("order MessageIntegrity+Fingerprint+XorMappedAddress+Software"),
        ops::<S54>("order MessageIntegrity+Fingerprint+Software+XorMappedAddress"),
        ops::<S55>("reverse of all"),
        ops::<S56>("rotated all"),
        ops::<S57>("odd ones first"),
    ]
}
