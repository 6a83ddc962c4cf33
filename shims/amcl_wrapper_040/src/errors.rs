use super::types::BigNum;
use core::fmt;

#[derive(Clone, Copy)]
pub enum ValueError {
    UnequalSizeVectors(usize, usize),
    IncorrectSize(usize),
    NonPowerOf2(usize),
    OutOfRange(usize),
    NegativeValue(BigNum),
}

impl fmt::Debug for ValueError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            ValueError::UnequalSizeVectors(a, b) => write!(f, "UnequalSizeVectors({}, {})", a, b),
            ValueError::IncorrectSize(a) => write!(f, "IncorrectSize({})", a),
            ValueError::NonPowerOf2(a) => write!(f, "NonPowerOf2({})", a),
            ValueError::OutOfRange(a) => write!(f, "OutOfRange({})", a),
            ValueError::NegativeValue(_) => write!(f, "NegativeValue"),
        }
    }
}

#[derive(Debug, Clone, Copy)]
pub enum SerzDeserzError {
    FieldElementBytesIncorrectSize(usize, usize),
    G1BytesIncorrectSize(usize),
    G2BytesIncorrectSize(usize),
    GTBytesIncorrectSize(usize, usize),
    RequiredHexChar,
    CannotParseFP,
}

impl fmt::Display for SerzDeserzError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match *self {
            SerzDeserzError::FieldElementBytesIncorrectSize(a, b) => write!(
                f,
                "Incorrect bytes size for field element. Given {} but expected {}",
                a, b
            ),
            SerzDeserzError::G1BytesIncorrectSize(a) => write!(
                f,
                "Incorrect bytes size for G1 group element. Given {} bytes",
                a
            ),
            SerzDeserzError::G2BytesIncorrectSize(a) => write!(
                f,
                "Incorrect bytes size for G2 group element. Given {} bytes",
                a
            ),
            SerzDeserzError::GTBytesIncorrectSize(a, b) => write!(
                f,
                "Incorrect bytes size for G2 group element. Given {} but expected {}",
                a, b
            ),
            SerzDeserzError::RequiredHexChar => write!(f, "Required hex character"),
            SerzDeserzError::CannotParseFP => write!(f, "Error while parsing FP"),
        }
    }
}

#[macro_export]
macro_rules! check_vector_size_for_equality {
    ( $a:expr, $b:expr ) => {{
        if $a.len() != $b.len() {
            Err(ValueError::UnequalSizeVectors($a.len(), $b.len()))
        } else {
            Ok(())
        }
    }};
}

#[cfg(test)]
mod test {
    use super::*;

    #[test]
    fn test_vector_size_equality() {
        let a1 = vec![1, 4, 6, 8];
        let a2 = vec![4, 5, 2, 1];
        assert!(check_vector_size_for_equality!(a1, a2).is_ok());

        let a3 = vec![1, 4, 6];
        assert!(check_vector_size_for_equality!(a3, a2).is_err());
    }
}
