use crate::sym::*;
use sia::types::*;

fn chk<T: AsRef<[u8; 32]>>(got: T, f: impl FnOnce(&mut Msg)) {
    let mut o = Msg::new();
    f(&mut o);
    is32(&got, &o);
}

harness!(c22_block, 24, {
    let id: [u8; 32] = bytes();
    let i = usize_();
    let b = BlockID::new(id);
    chk(b.miner_output_id(i), |o| {
        o.put(&id).u64(i as u64);
    });
    chk(b.foundation_output_id(), |o| {
        o.put(&id).put(b"foundation\0\0\0\0\0\0");
    });
    reach!("end");
});
harness!(c22_v2_child, 24, {
    let id: [u8; 32] = bytes();
    let i = usize_();
    let t = TransactionID::new(id);
    chk(t.v2_siacoin_output_id(i), |o| {
        o.put(b"sia/id/siacoinoutput|").put(&id).u64(i as u64);
    });
    chk(t.v2_siafund_output_id(i), |o| {
        o.put(b"sia/id/siafundoutput|").put(&id).u64(i as u64);
    });
    chk(t.v2_file_contract_id(i), |o| {
        o.put(b"sia/id/filecontract|").put(&id).u64(i as u64);
    });
    chk(t.v2_attestation_id(i), |o| {
        o.put(b"sia/id/attestation|").put(&id).u64(i as u64);
    });
    reach!("end");
});
harness!(c22_contract, 24, {
    let id: [u8; 32] = bytes();
    let i = usize_();
    let t = FileContractID::new(id);
    chk(t.valid_output_id(i), |o| {
        o.put(b"storage proof\0\0\0").put(&id).u8(1).u64(i as u64);
    });
    chk(t.missed_output_id(i), |o| {
        o.put(b"storage proof\0\0\0").put(&id).u8(0).u64(i as u64);
    });
    reach!("end");
});
harness!(c22_v2_contract, 24, {
    let id: [u8; 32] = bytes();
    let t = FileContractID::new(id);
    chk(t.v2_renter_output_id(), |o| {
        o.put(b"sia/id/v2filecontractoutput|").put(&id).u64(0);
    });
    chk(t.v2_host_output_id(), |o| {
        o.put(b"sia/id/v2filecontractoutput|").put(&id).u64(1);
    });
    chk(t.v2_renewal_id(), |o| {
        o.put(b"sia/id/v2filecontractrenewal|").put(&id);
    });
    reach!("end");
});
harness!(c22_claim, 24, {
    let id: [u8; 32] = bytes();
    let t = SiafundOutputID::new(id);
    chk(t.claim_output_id(), |o| {
        o.put(&id);
    });
    chk(t.v2_claim_output_id(), |o| {
        o.put(b"sia/id/v2siacoinclaimoutput|").put(&id);
    });
    reach!("end");
});
fn ne<A: AsRef<[u8; 32]>, B: AsRef<[u8; 32]>>(a: &A, b: &B) {
    assert!(!eq32(a.as_ref(), b.as_ref()));
}
// distinct indices, kinds and parents give distinct messages
harness!(c22_distinct, 24, {
    let (a, b): ([u8; 32], [u8; 32]) = (bytes(), bytes());
    let (i, j) = (usize_(), usize_());
    assume(i != j || !eq32(&a, &b));
    collision_free();
    let k = below(6);
    if k == 0 {
        ne(&TransactionID::new(a).v2_siacoin_output_id(i), &TransactionID::new(b).v2_siacoin_output_id(j));
    } else if k == 1 {
        ne(&TransactionID::new(a).v2_attestation_id(i), &TransactionID::new(b).v2_attestation_id(j));
    } else if k == 2 {
        ne(&FileContractID::new(a).valid_output_id(i), &FileContractID::new(b).valid_output_id(j));
    } else if k == 3 {
        ne(&FileContractID::new(a).missed_output_id(i), &FileContractID::new(b).missed_output_id(j));
    } else if k == 4 {
        ne(&BlockID::new(a).miner_output_id(i), &BlockID::new(b).miner_output_id(j));
    } else {
        ne(&TransactionID::new(a).v2_file_contract_id(i), &TransactionID::new(b).v2_siafund_output_id(j));
    }
    reach!("end");
});
