//! Entry points for the static analysis: window functions, impulse and frequency responses, lookup tables, constructors and
//! conversions. Nothing here is ever run.
#![allow(unused_imports, dead_code, clippy::all)]
use arrayvec::ArrayVec;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
use num_complex::Complex;

macro_rules! windows {
    ($T:ty) => {
        pub fn triangular(n: usize, length: usize) -> $T { WindowFunction::<$T>::window(&TriangularWindow, n, length) }
        pub fn hamming(n: usize, length: usize) -> $T { WindowFunction::<$T>::window(&HammingWindow::<$T>::default(), n, length) }
        pub fn hamming_alpha(alpha: $T, n: usize, length: usize) -> $T { WindowFunction::<$T>::window(&HammingWindow::<$T>::new(alpha), n, length) }
        pub fn blackman_harris(n: usize, length: usize) -> $T { WindowFunction::<$T>::window(&BlackmanHarrisWindow, n, length) }
        pub fn rectangular(n: usize, length: usize) -> $T { WindowFunction::<$T>::window(&RectangularWindow, n, length) }
        pub fn triangular_sym() -> bool { WindowFunction::<$T>::is_symmetric(&TriangularWindow) }
        pub fn hamming_sym(w: &HammingWindow<$T>) -> bool { WindowFunction::<$T>::is_symmetric(w) }
        pub fn blackman_harris_sym() -> bool { WindowFunction::<$T>::is_symmetric(&BlackmanHarrisWindow) }
        pub fn rectangular_sym() -> bool { WindowFunction::<$T>::is_symmetric(&RectangularWindow) }
        pub fn sinc_time(x: $T) -> $T { RealImpulseResponse::<$T>::calc(&SincFunction::<$T>::new(), x) }
        pub fn sinc_freq(x: $T) -> $T { RealFrequencyResponse::<$T>::calc(&SincFunction::<$T>::new(), x) }
        pub fn rc_time(rolloff: $T, x: $T) -> $T { RealImpulseResponse::<$T>::calc(&RaisedCosineFunction::<$T>::new(rolloff), x) }
        pub fn rc_freq(rolloff: $T, x: $T) -> $T { RealFrequencyResponse::<$T>::calc(&RaisedCosineFunction::<$T>::new(rolloff), x) }
        pub fn sinc_time_sym(f: &SincFunction<$T>) -> bool { RealImpulseResponse::<$T>::is_symmetric(f) }
        pub fn sinc_freq_sym(f: &SincFunction<$T>) -> bool { RealFrequencyResponse::<$T>::is_symmetric(f) }
        pub fn rc_time_sym(f: &RaisedCosineFunction<$T>) -> bool { RealImpulseResponse::<$T>::is_symmetric(f) }
        pub fn rc_freq_sym(f: &RaisedCosineFunction<$T>) -> bool { RealFrequencyResponse::<$T>::is_symmetric(f) }
    };
}
pub mod fun64 {
    use super::*;
    windows!(f64);
}
pub mod fun32 {
    use super::*;
    windows!(f32);
}

macro_rules! table {
    ($T:ty, $R:ty, $table:ident, $tr:ident) => {
        pub type Table = $table<$T>;
        pub fn calc(t: &Table, x: $T) -> $R { $tr::<$T>::calc(t, x) }
        pub fn sym(t: &Table) -> bool { $tr::<$T>::is_symmetric(t) }
        pub fn table(t: &Table) -> &[$R] { t.table() }
        pub fn delta(t: &Table) -> $T { t.delta() }
        pub fn from_raw_parts(table: &[$R], delta: $T, sym: bool) -> Table { Table::from_raw_parts(table, delta, sym) }
        pub fn from_conv_function(f: &dyn $tr<$T>, delta: $T, len: usize) -> Table { Table::from_conv_function(f, delta, len) }
    };
}
macro_rules! tables {
    ($T:ty, $rt:ident, $rf:ident, $ct:ident, $cf:ident) => {
        pub mod $rt {
            use super::*;
            table!($T, $T, RealTimeLinearTableLookup, RealImpulseResponse);
            pub fn to_complex(t: &Table) -> ComplexTimeLinearTableLookup<$T> { t.to_complex() }
            pub fn fft(t: Table) -> RealFrequencyLinearTableLookup<$T> { t.fft() }
        }
        pub mod $rf {
            use super::*;
            table!($T, $T, RealFrequencyLinearTableLookup, RealFrequencyResponse);
            pub fn to_complex(t: &Table) -> ComplexFrequencyLinearTableLookup<$T> { t.to_complex() }
        }
        pub mod $ct {
            use super::*;
            table!($T, Complex<$T>, ComplexTimeLinearTableLookup, ComplexImpulseResponse);
            pub fn to_real(t: &Table) -> RealTimeLinearTableLookup<$T> { t.to_real() }
            pub fn fft(t: Table) -> ComplexFrequencyLinearTableLookup<$T> { t.fft() }
        }
        pub mod $cf {
            use super::*;
            table!($T, Complex<$T>, ComplexFrequencyLinearTableLookup, ComplexFrequencyResponse);
            pub fn to_real(t: &Table) -> RealFrequencyLinearTableLookup<$T> { t.to_real() }
            pub fn ifft(t: Table) -> ComplexTimeLinearTableLookup<$T> { t.ifft() }
        }
    };
}
tables!(f64, trt64, trf64, tct64, tcf64);
tables!(f32, trt32, trf32, tct32, tcf32);

macro_rules! construct {
    ($T:ty, $S:ty) => {
        pub type S = $S;
        pub fn gen(d: S, is_complex: bool, domain: DataDomain) -> GenDspVec<S, $T> { ToDspVector::<$T>::to_gen_dsp_vec(d, is_complex, domain) }
        pub fn dsp_gen(d: S, m: &TypeMetaData<$T, meta::RealOrComplex, meta::TimeOrFreq>) -> GenDspVec<S, $T> { ToDspVector::<$T>::to_dsp_vec(d, m) }
        pub fn dsp_ct(d: S, m: &TypeMetaData<$T, meta::Complex, meta::Time>) -> ComplexTimeVec<S, $T> { ToDspVector::<$T>::to_dsp_vec(d, m) }
        pub fn dsp_rf(d: S, m: &TypeMetaData<$T, meta::Real, meta::Freq>) -> RealFreqVec<S, $T> { ToDspVector::<$T>::to_dsp_vec(d, m) }
        pub fn rt(d: S) -> RealTimeVec<S, $T> { ToRealVector::<$T>::to_real_time_vec(d) }
        pub fn rf(d: S) -> RealFreqVec<S, $T> { ToRealVector::<$T>::to_real_freq_vec(d) }
        pub fn ct(d: S) -> ComplexTimeVec<S, $T> { ToComplexVector::<S, $T>::to_complex_time_vec(d) }
        pub fn cf(d: S) -> ComplexFreqVec<S, $T> { ToComplexVector::<S, $T>::to_complex_freq_vec(d) }
        pub fn from_rt(d: S) -> RealTimeVec<S, $T> { From::from(d) }
        pub fn from_rf(d: S) -> RealFreqVec<S, $T> { From::from(d) }
        pub fn from_ct(d: S) -> ComplexTimeVec<S, $T> { From::from(d) }
        pub fn from_cf(d: S) -> ComplexFreqVec<S, $T> { From::from(d) }
        pub fn getf_rt(v: RealTimeVec<S, $T>) -> (S, usize) { FromVectorFloat::<$T>::getf(v) }
        pub fn getf_cf(v: ComplexFreqVec<S, $T>) -> (S, usize) { FromVectorFloat::<$T>::getf(v) }
        pub fn get_rt(v: RealTimeVec<S, $T>) -> (S, usize) { FromVector::<$T>::get(v) }
        pub fn get_rf(v: RealFreqVec<S, $T>) -> (S, usize) { FromVector::<$T>::get(v) }
    };
}
macro_rules! constructors {
    ($T:ty, $vec:ident, $boxed:ident, $slice:ident, $slicemut:ident, $array:ident, $own:ident) => {
        pub mod $vec {
            use super::*;
            construct!($T, Vec<$T>);
            pub fn interleave_ct(d: &S, o: &S) -> core::result::Result<ComplexTimeVec<Vec<$T>, $T>, ErrorReason> { InterleaveToVector::<$T>::interleave_to_complex_time_vec(d, o) }
            pub fn interleave_cf(d: &S, o: &S) -> core::result::Result<ComplexFreqVec<Vec<$T>, $T>, ErrorReason> { InterleaveToVector::<$T>::interleave_to_complex_freq_vec(d, o) }
            pub fn complex_ct(d: Vec<Complex<$T>>) -> ComplexTimeVec<S, $T> { ToComplexVector::<S, $T>::to_complex_time_vec(d) }
            pub fn complex_cf(d: Vec<Complex<$T>>) -> ComplexFreqVec<S, $T> { ToComplexVector::<S, $T>::to_complex_freq_vec(d) }
            pub fn get_ct(v: ComplexTimeVec<S, $T>) -> (Vec<Complex<$T>>, usize) { FromVector::<$T>::get(v) }
            pub fn get_cf(v: ComplexFreqVec<S, $T>) -> (Vec<Complex<$T>>, usize) { FromVector::<$T>::get(v) }
            pub fn clone_gen(v: &GenDspVec<S, $T>) -> GenDspVec<S, $T> { v.clone() }
            pub fn clone_cf(v: &ComplexFreqVec<S, $T>) -> ComplexFreqVec<S, $T> { v.clone() }
            pub fn into_rt(v: RealTimeVec<S, $T>) -> S { From::from(v) }
            pub fn into_rf(v: RealFreqVec<S, $T>) -> S { From::from(v) }
            pub fn into_ct(v: ComplexTimeVec<S, $T>) -> Vec<Complex<$T>> { From::from(v) }
            pub fn into_cf(v: ComplexFreqVec<S, $T>) -> Vec<Complex<$T>> { From::from(v) }
        }
        pub mod $boxed {
            use super::*;
            construct!($T, Box<[$T]>);
        }
        pub mod $slice {
            use super::*;
            construct!($T, &'static [$T]);
            pub fn complex_ct(d: &'static [Complex<$T>]) -> ComplexTimeVec<S, $T> { ToComplexVector::<S, $T>::to_complex_time_vec(d) }
            pub fn complex_cf(d: &'static [Complex<$T>]) -> ComplexFreqVec<S, $T> { ToComplexVector::<S, $T>::to_complex_freq_vec(d) }
            pub fn get_ct(v: ComplexTimeVec<S, $T>) -> (&'static [Complex<$T>], usize) { FromVector::<$T>::get(v) }
            pub fn get_cf(v: ComplexFreqVec<S, $T>) -> (&'static [Complex<$T>], usize) { FromVector::<$T>::get(v) }
        }
        pub mod $slicemut {
            use super::*;
            construct!($T, &'static mut [$T]);
            pub fn complex_ct(d: &'static mut [Complex<$T>]) -> ComplexTimeVec<S, $T> { ToComplexVector::<S, $T>::to_complex_time_vec(d) }
            pub fn complex_cf(d: &'static mut [Complex<$T>]) -> ComplexFreqVec<S, $T> { ToComplexVector::<S, $T>::to_complex_freq_vec(d) }
            pub fn get_ct(v: ComplexTimeVec<S, $T>) -> (&'static mut [Complex<$T>], usize) { FromVector::<$T>::get(v) }
            pub fn get_cf(v: ComplexFreqVec<S, $T>) -> (&'static mut [Complex<$T>], usize) { FromVector::<$T>::get(v) }
        }
        pub mod $array {
            use super::*;
            construct!($T, ArrayVec<$T, 16>);
        }
    };
}
constructors!(f64, vec64, boxed64, slice64, slicemut64, array64, own64);
constructors!(f32, vec32, boxed32, slice32, slicemut32, array32, own32);
