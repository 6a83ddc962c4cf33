use std::ops::{Add, Index, IndexMut, Mul, Sub};

use crate::field_elem::{FieldElement, FieldElementVector};
use std::cmp::max;

/// Univariate polynomial represented with coefficients in a vector. The ith element of the vector is the coefficient of the ith degree term.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct UnivarPolynomial(pub FieldElementVector);

impl UnivarPolynomial {
    /// Return a zero polynomial of degree `degree`
    pub fn new(degree: usize) -> Self {
        let coeffs = FieldElementVector::new(degree + 1);
        UnivarPolynomial(coeffs)
    }

    /// Return a constant polynomial
    pub fn new_constant(constant: FieldElement) -> Self {
        let mut coeffs = FieldElementVector::new(1);
        coeffs[0] = constant;
        UnivarPolynomial(coeffs)
    }

    /// Return a randomly chosen polynomial (each coefficient is randomly chosen) of degree `degree`.
    pub fn random(degree: usize) -> Self {
        Self(FieldElementVector::random(degree + 1)) // +1 for constant term
    }

    /// Create a polynomial with given roots in `roots`
    /// i.e. (x-roots[0])*(x-roots[1])*(x-roots[2])...(x-roots[last]) given `roots`
    pub fn new_with_roots(roots: &[FieldElement]) -> Self {
        // vector of [(x-roots[0]), (x-roots[1]), (x-roots[2]), ...]
        let x_i = roots
            .iter()
            .map(|i| {
                let mut v = FieldElementVector::with_capacity(2);
                v.push(-i);
                v.push(FieldElement::one());
                UnivarPolynomial(v)
            })
            .collect::<Vec<UnivarPolynomial>>();

        // Polynomial (x-roots[0])*(x-roots[1])*(x-roots[2])...(x-roots[last])
        x_i.iter().cloned().fold(Self::new_constant(FieldElement::one()),
            |a, b| UnivarPolynomial::multiply(&a, &b),
        )
    }

    pub fn coefficients(&self) -> &FieldElementVector {
        &self.0
    }

    pub fn degree(&self) -> usize {
        // TODO: This makes fetching the coefficient ambiguous as a 0 degree polynomial might
        // have a coefficient for the 0th degree or it might not. Should probably adapt Index and IndexMut trait.
        let l = self.0.len();
        if l == 0 {
            l
        } else {
            l - 1
        }
    }

    /// Polynomial is zero if all coefficients are 0
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|coeff| coeff.is_zero())
    }

    // Evaluate polynomial at given `x`
    pub fn eval(&self, x: &FieldElement) -> FieldElement {
        if x.is_zero() {
            self[0].clone()
        } else {
            // Use Horner's method https://en.wikipedia.org/wiki/Horner%27s_method
            // p(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + a_4*x^4 + ...
            // p(x) = a_0 + x*(a_1 + x*(a_2 + x*(a_3 + x*(a_4 + ... x*(a_{n-1} + x*a_n))))..
            // Reading coefficients from higher to lower degrees.
            let mut res = self.0[self.0.len() - 1].clone(); // a_n
            for i in (0..=self.0.len() - 2).rev() {
                // in each iteration, multiply `res` with `x` and add the coefficient for ith degree, a_i
                res = &self.0[i] + &(&res * x);
            }
            res
        }
    }

    /// Divides 2 polynomials i.e. `dividend` / `divisor` using long division.
    /// Returns (quotient, remainder)
    pub fn long_division(dividend: &Self, divisor: &Self) -> (Self, Self) {
        assert!(!divisor.is_zero());
        assert!(!divisor[divisor.degree()].is_zero());

        let mut remainder: UnivarPolynomial = dividend.clone();
        let mut quotient = vec![];
        // Inverse of coefficient of highest degree of the divisor polynomial. This will be multiplied
        // with the coefficient of highest degree of the remainder.
        let highest_degree_coeff_inv = divisor[divisor.degree()].inverse();
        let rem_degree = dividend.degree();
        let div_degree = divisor.degree();
        for i in (div_degree..=rem_degree).rev() {
            if remainder[i].is_zero() {
                quotient.push(FieldElement::zero());
                continue;
            }

            let q = &highest_degree_coeff_inv * &remainder[i];
            for j in 0..div_degree {
                remainder[i - div_degree + j] -= &(&divisor[j] * &q);
            }
            quotient.push(q);
        }
        // The coefficients of the quotient polynomial were computed from highest to lowest degree.
        quotient.reverse();
        // Remainder's degree will be less than divisor's degree.
        for _ in div_degree..=rem_degree {
            remainder.0.pop();
        }
        (
            UnivarPolynomial(FieldElementVector::from(quotient)),
            remainder,
        )
    }

    /// Return product of 2 polynomials. `left` * `right`
    pub fn multiply(left: &Self, right: &Self) -> Self {
        let mut product = Self::new(left.degree() + right.degree());
        for i in 0..=left.degree() {
            for j in 0..=right.degree() {
                product[i + j] += &left[i] * &right[j];
            }
        }
        product
    }

    /// Return sum of 2 polynomials. `left` + `right`
    pub fn sum(left: &Self, right: &Self) -> Self {
        // The resulting sum polynomial is initialized with the input polynomial of larger degree
        let (mut sum_poly, smaller_poly, smaller_poly_degree) = if left.degree() > right.degree() {
            (left.clone(), right, right.degree())
        } else {
            (right.clone(), left, left.degree())
        };

        // The following unobvious code is to use rayon for parallelization. A simpler (non-parallel)
        // version would be  `for i in 0..=smaller_poly_degree { sum_poly[i] += &smaller_poly[i]; }`

        // Add small degree ([0, smaller_poly_degree]) terms in parallel
        let small_degree_terms = (0..=smaller_poly_degree)
            .into_iter()
            .map(|i| &sum_poly[i] + &smaller_poly[i])
            .collect::<Vec<FieldElement>>();
        // Replace small degree ([0, smaller_poly_degree]) terms in the sum_poly
        sum_poly.replace_small_degree_terms(smaller_poly_degree, small_degree_terms.into_iter());
        sum_poly
    }

    /// Return difference of 2 polynomials. `left` - `right`
    pub fn difference(left: &Self, right: &Self) -> Self {
        let left_degree = left.degree();
        let right_degree = right.degree();
        let diff_poly_degree = max(left_degree, right_degree);
        let mut diff = Self::new(diff_poly_degree);
        for i in 0..=diff_poly_degree {
            if i <= left_degree {
                diff[i] = left[i].clone();
            }
            if i <= right_degree {
                diff[i] -= &right[i];
            }
        }
        diff
    }

    pub fn multiply_by_constant(&self, constant: &FieldElement) -> UnivarPolynomial {
        let mut new_poly = self.clone();
        for i in 0..=self.degree() {
            new_poly[i] = constant * &self[i];
        }
        new_poly
    }

    pub fn multiply_by_monic_monomial(&self, monomial_degree: u64) -> UnivarPolynomial {
        let mut new_poly = self.clone();
        let new_poly_beginning = FieldElementVector::new(monomial_degree as usize);
        new_poly.0.splice(0..0, new_poly_beginning);
        new_poly
    }

    /// Replace terms of `self` from degree 0 to `till_degree` with coefficients in `replace_with`.
    /// Assumes `replace_with` will yield at least `till_degree` + 1 coefficients
    fn replace_small_degree_terms<I: IntoIterator<Item = FieldElement>>(
        &mut self,
        till_degree: usize,
        replace_with: I,
    ) {
        self.0.splice(0..=till_degree, replace_with)
    }
}

impl Index<usize> for UnivarPolynomial {
    type Output = FieldElement;

    fn index(&self, idx: usize) -> &FieldElement {
        &self.0[idx]
    }
}

impl IndexMut<usize> for UnivarPolynomial {
    fn index_mut(&mut self, idx: usize) -> &mut FieldElement {
        &mut self.0[idx]
    }
}

impl Eq for UnivarPolynomial {}

impl<'a> Add<&'a UnivarPolynomial> for &UnivarPolynomial {
    type Output = UnivarPolynomial;
    fn add(self, other: &'a UnivarPolynomial) -> UnivarPolynomial {
        UnivarPolynomial::sum(self, other)
    }
}

impl<'a> Sub<&'a UnivarPolynomial> for &UnivarPolynomial {
    type Output = UnivarPolynomial;

    fn sub(self, other: &'a UnivarPolynomial) -> UnivarPolynomial {
        UnivarPolynomial::difference(self, other)
    }
}

impl<'a> Mul<&'a UnivarPolynomial> for &UnivarPolynomial {
    type Output = UnivarPolynomial;

    fn mul(self, other: &'a UnivarPolynomial) -> UnivarPolynomial {
        UnivarPolynomial::multiply(self, other)
    }
}

/// Creates a new univariate polynomial from given coefficients from lower to higher degree terms
#[macro_export]
macro_rules! univar_polynomial {
    ( $( $elem:expr ),* ) => {
        {
            let mut coeffs = vec![];
            $(
                coeffs.push($elem);
            )*
            UnivarPolynomial(coeffs.into())
        }
    };
}

