use crate::bls12_381::*;
use crate::{CurveAffine, CurveProjective, EncodedPoint};
use ff_zeroize::{PrimeField, PrimeFieldRepr};
use std::io::{Error, ErrorKind, Read, Result, Write};
type Compressed = bool;

pub trait SerDes: Sized {
    fn serialize<W: Write>(&self, writer: &mut W, compressed: Compressed) -> Result<()>;
    fn deserialize<R: Read>(reader: &mut R, compressed: Compressed) -> Result<Self>;
}

impl SerDes for Fr {
    fn serialize<W: Write>(&self, writer: &mut W, _compressed: Compressed) -> Result<()> {
        self.into_repr().write_be(writer)
    }
    fn deserialize<R: Read>(reader: &mut R, _compressed: Compressed) -> Result<Self> {
        let mut r = FrRepr::default();
        r.read_be(reader)?;
        Fr::from_repr(r).map_err(|e| Error::new(ErrorKind::Other, e))
    }
}

macro_rules! point {
    ($aff:ident, $proj:ident, $comp:ident, $uncomp:ident) => {
        impl SerDes for $aff {
            fn serialize<W: Write>(&self, writer: &mut W, compressed: Compressed) -> Result<()> {
                if compressed {
                    writer.write_all($comp::from_affine(*self).as_ref())
                } else {
                    writer.write_all($uncomp::from_affine(*self).as_ref())
                }
            }
            fn deserialize<R: Read>(reader: &mut R, compressed: Compressed) -> Result<Self> {
                let mut buf = vec![0u8; $comp::size()];
                reader.read_exact(&mut buf)?;
                if ((buf[0] & 0x80) == 0x80) != compressed {
                    return Err(Error::new(ErrorKind::InvalidData, "Invalid compressness"));
                }
                if compressed {
                    let mut g = $comp::empty();
                    g.as_mut().copy_from_slice(&buf);
                    g.into_affine().map_err(|e| Error::new(ErrorKind::InvalidData, e))
                } else {
                    let mut buf2 = vec![0u8; $uncomp::size() - $comp::size()];
                    reader.read_exact(&mut buf2)?;
                    buf.append(&mut buf2);
                    let mut g = $uncomp::empty();
                    g.as_mut().copy_from_slice(&buf);
                    g.into_affine().map_err(|e| Error::new(ErrorKind::InvalidData, e))
                }
            }
        }
        impl SerDes for $proj {
            fn serialize<W: Write>(&self, writer: &mut W, compressed: Compressed) -> Result<()> {
                self.into_affine().serialize(writer, compressed)
            }
            fn deserialize<R: Read>(reader: &mut R, compressed: Compressed) -> Result<Self> {
                Ok($aff::deserialize(reader, compressed)?.into_projective())
            }
        }
    };
}
point!(G1Affine, G1, G1Compressed, G1Uncompressed);
point!(G2Affine, G2, G2Compressed, G2Uncompressed);
