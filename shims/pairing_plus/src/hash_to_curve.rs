//! Hashing to a curve is a random oracle with a group element as output.
use crate::bls12_381::{G1, G2};
use crate::hash_to_field::ExpandMsg;

pub trait HashToCurve<X>
where
    X: ExpandMsg,
{
    fn hash_to_curve<Mt: AsRef<[u8]>, Dt: AsRef<[u8]>>(msg: Mt, dst: Dt) -> Self;
    fn encode_to_curve<Mt: AsRef<[u8]>, Dt: AsRef<[u8]>>(msg: Mt, dst: Dt) -> Self;
}
fn input(msg: &[u8], dst: &[u8]) -> Vec<u8> {
    let mut v = (msg.len() as u64).to_be_bytes().to_vec();
    v.extend_from_slice(msg);
    v.extend_from_slice(dst);
    v
}
macro_rules! h2c {
    ($g:ident, $d:expr) => {
        impl<X: ExpandMsg> HashToCurve<X> for $g {
            fn hash_to_curve<Mt: AsRef<[u8]>, Dt: AsRef<[u8]>>(msg: Mt, dst: Dt) -> Self {
                $g::from_id(symcore::oracle_unkeyed($d, &input(msg.as_ref(), dst.as_ref())))
            }
            fn encode_to_curve<Mt: AsRef<[u8]>, Dt: AsRef<[u8]>>(msg: Mt, dst: Dt) -> Self {
                $g::from_id(symcore::oracle_unkeyed(concat!("enc-", $d), &input(msg.as_ref(), dst.as_ref())))
            }
        }
    };
}
h2c!(G1, "h2c-g1");
h2c!(G2, "h2c-g2");
