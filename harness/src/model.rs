//! The reference: a plain row-major n-d array of f64 (exact for integers below 2^53), with, per element, the
//! "magnitude" of the computation that produced it (same computation on absolute values), which bounds rounding error.
//! Indexing is by division and remainder; nothing here shares code with the library.

#[derive(Clone, Debug, PartialEq)]
pub struct Nd {
    pub shape: Vec<usize>,
    pub data: Vec<f64>,
    pub mag: Vec<f64>,
}

pub fn count(shape: &[usize]) -> usize {
    if shape.contains(&0) {
        return 0;
    }
    shape.iter().product()
}
/// coordinates of flat position `p`
pub fn unravel(mut p: usize, shape: &[usize]) -> Vec<usize> {
    let mut out = vec![0; shape.len()];
    for d in (0..shape.len()).rev() {
        out[d] = p % shape[d];
        p /= shape[d];
    }
    out
}
pub fn ravel(idx: &[usize], shape: &[usize]) -> usize {
    idx.iter().zip(shape).fold(0, |acc, (&i, &d)| acc * d + i)
}
/// numpy broadcasting of two shapes
pub fn broadcast(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let r = a.len().max(b.len());
    let at = |s: &[usize], d: usize| if d + s.len() >= r { s[d + s.len() - r] } else { 1 };
    (0..r)
        .map(|d| match (at(a, d), at(b, d)) {
            (x, y) if x == y => Some(x),
            (1, y) => Some(y),
            (x, 1) => Some(x),
            _ => None,
        })
        .collect()
}
/// flat position in `shape` that the broadcast coordinate `idx` refers to
pub fn bpos(idx: &[usize], shape: &[usize]) -> usize {
    let skip = idx.len() - shape.len();
    shape.iter().enumerate().fold(0, |acc, (d, &n)| acc * n + if n == 1 { 0 } else { idx[skip + d] })
}

/// Adding n terms one after the other may lose up to n units in the last place, which long sums of small floats do.
fn terms(n: usize) -> f64 {
    (n as f64 / 100.0).max(1.0)
}

impl Nd {
    pub fn new(shape: Vec<usize>, data: Vec<f64>) -> Nd {
        assert_eq!(count(&shape), data.len(), "model bug: malformed array");
        let mag = data.iter().map(|x| x.abs()).collect();
        Nd { shape, data, mag }
    }
    pub fn with_mag(shape: Vec<usize>, data: Vec<f64>, mag: Vec<f64>) -> Nd {
        Nd { shape, data, mag }
    }
    pub fn zeros(shape: &[usize]) -> Nd {
        Nd::new(shape.to_vec(), vec![0.0; count(shape)])
    }
    pub fn scalar(x: f64) -> Nd {
        Nd::new(vec![], vec![x])
    }
    pub fn count(&self) -> usize {
        self.data.len()
    }
    pub fn max_mag(&self) -> f64 {
        self.mag.iter().cloned().fold(0.0, f64::max)
    }
    pub fn reshape(&self, shape: Vec<usize>) -> Nd {
        assert_eq!(count(&shape), self.count());
        Nd { shape, ..self.clone() }
    }
    pub fn map(&self, f: impl Fn(f64) -> f64, m: impl Fn(f64) -> f64) -> Nd {
        Nd {
            shape: self.shape.clone(),
            data: self.data.iter().map(|&x| f(x)).collect(),
            mag: self.mag.iter().map(|&x| m(x)).collect(),
        }
    }
    pub fn neg(&self) -> Nd {
        self.map(|x| -x, |m| m)
    }
    fn bin(&self, o: &Nd, f: impl Fn(f64, f64) -> f64, m: impl Fn(f64, f64) -> f64) -> Option<Nd> {
        let shape = broadcast(&self.shape, &o.shape)?;
        let n = count(&shape);
        let (mut data, mut mag) = (Vec::with_capacity(n), Vec::with_capacity(n));
        for p in 0..n {
            let idx = unravel(p, &shape);
            let (i, j) = (bpos(&idx, &self.shape), bpos(&idx, &o.shape));
            data.push(f(self.data[i], o.data[j]));
            mag.push(m(self.mag[i], o.mag[j]));
        }
        Some(Nd { shape, data, mag })
    }
    pub fn add(&self, o: &Nd) -> Option<Nd> {
        self.bin(o, |a, b| a + b, |a, b| a + b)
    }
    pub fn sub(&self, o: &Nd) -> Option<Nd> {
        self.bin(o, |a, b| a - b, |a, b| a + b)
    }
    pub fn mul(&self, o: &Nd) -> Option<Nd> {
        self.bin(o, |a, b| a * b, |a, b| a * b)
    }
    pub fn sum(&self) -> Nd {
        Nd::with_mag(vec![], vec![self.data.iter().sum::<f64>() + 0.0], vec![self.mag.iter().sum::<f64>() * terms(self.count())])
    }
    /// sums a broadcast-shaped array back to `shape`
    pub fn unbroadcast(&self, shape: &[usize]) -> Nd {
        let mut out = Nd::zeros(shape);
        for p in 0..self.count() {
            let idx = unravel(p, &self.shape);
            let q = bpos(&idx, shape);
            out.data[q] += self.data[p];
            out.mag[q] += self.mag[p];
        }
        let n = terms(self.count() / out.count().max(1));
        out.mag.iter_mut().for_each(|m| *m *= n);
        out
    }
    pub fn add_assign(&mut self, o: &Nd) {
        assert_eq!(self.shape, o.shape);
        for i in 0..self.count() {
            self.data[i] += o.data[i];
            self.mag[i] += o.mag[i];
        }
    }
    /// [.., m, k] x [k, n] for rank 2 or 3 on the left
    pub fn matmul(&self, o: &Nd) -> Option<Nd> {
        let r = self.shape.len();
        if !(2..=3).contains(&r) || o.shape.len() != 2 || self.shape[r - 1] != o.shape[0] {
            return None;
        }
        let (k, n) = (o.shape[0], o.shape[1]);
        let rows: usize = self.shape[..r - 1].iter().product();
        let mut shape = self.shape[..r - 1].to_vec();
        shape.push(n);
        let mut out = Nd::zeros(&shape);
        for i in 0..rows {
            for j in 0..n {
                for x in 0..k {
                    out.data[i * n + j] += self.data[i * k + x] * o.data[x * n + j];
                    out.mag[i * n + j] += self.mag[i * k + x] * o.mag[x * n + j];
                }
            }
        }
        let f = terms(k);
        out.mag.iter_mut().for_each(|m| *m *= f);
        Some(out)
    }
    pub fn matrix_transpose(&self) -> Nd {
        let (m, n) = (self.shape[0], self.shape[1]);
        let mut out = Nd::zeros(&[n, m]);
        for i in 0..m {
            for j in 0..n {
                out.data[j * m + i] = self.data[i * n + j];
                out.mag[j * m + i] = self.mag[i * n + j];
            }
        }
        out
    }
    /// the sub-box of half-open ranges
    pub fn slice(&self, ranges: &[(usize, usize)]) -> Nd {
        let shape: Vec<usize> = ranges.iter().map(|r| r.1 - r.0).collect();
        let mut out = Nd::zeros(&shape);
        for p in 0..out.count() {
            let idx: Vec<usize> = unravel(p, &shape).iter().zip(ranges).map(|(i, r)| i + r.0).collect();
            let q = ravel(&idx, &self.shape);
            out.data[p] = self.data[q];
            out.mag[p] = self.mag[q];
        }
        out
    }
}
