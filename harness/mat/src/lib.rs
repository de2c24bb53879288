//! Entry points for the static analysis: every operation of the matrix types, instantiated with
//! concrete types so that the compiler resolves each call. Nothing here is ever run.
#![allow(unused_imports, dead_code, clippy::all)]
use basic_dsp_matrix::*;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
use num_complex::Complex;

pub type S = Vec<f64>;
pub type B = SingleBuffer<f64>;
pub type V = GenDspVec<S, f64>;
pub type N = meta::RealOrComplex;
pub type D = meta::TimeOrFreq;
pub type F1 = fn(f64, usize, f64) -> f64;
pub type F2 = fn(f64, f64) -> f64;
pub type G1 = fn(Complex<f64>, usize, f64) -> Complex<f64>;
pub type G2 = fn(Complex<f64>, Complex<f64>) -> Complex<f64>;

/// a row of which nothing is known but the traits it implements
pub struct Row;
impl MetaData for Row {
    fn domain(&self) -> DataDomain { loop {} }
    fn is_complex(&self) -> bool { loop {} }
}
impl ResizeOps for Row { fn resize(&mut self, _: usize) -> VoidResult { loop {} } }
macro_rules! index { ($($r:ty => $o:ty),*) => { $(impl FloatIndex<$r> for Row { type Output = $o; fn data(&self, _: $r) -> &$o { loop {} } })* } }
index!(core::ops::RangeFull => [f64], core::ops::Range<usize> => [f64], core::ops::RangeFrom<usize> => [f64], core::ops::RangeTo<usize> => [f64], usize => f64);
impl Vector<f64> for Row {
    fn delta(&self) -> f64 { loop {} }
    fn set_delta(&mut self, _: f64) { loop {} }
    fn len(&self) -> usize { loop {} }
    fn is_empty(&self) -> bool { loop {} }
    fn points(&self) -> usize { loop {} }
    fn get_multicore_settings(&self) -> &MultiCoreSettings { loop {} }
    fn set_multicore_settings(&mut self, _: MultiCoreSettings) { loop {} }
    fn alloc_len(&self) -> usize { loop {} }
}
impl StatisticsOps<Statistics<f64>> for Row { type Result = Statistics<f64>; fn statistics(&self) -> Statistics<f64> { loop {} } }
impl StatisticsSplitOps<Statistics<f64>> for Row { type Result = StatsVec<Statistics<f64>>; fn statistics_split(&self, _: usize) -> ScalarResult<StatsVec<Statistics<f64>>> { loop {} } }
impl SumOps<f64> for Row { fn sum(&self) -> f64 { loop {} } fn sum_sq(&self) -> f64 { loop {} } }
impl PreciseStatisticsOps<Statistics<f64>> for Row { type Result = Statistics<f64>; fn statistics_prec(&self) -> Statistics<f64> { loop {} } }
impl PreciseStatisticsSplitOps<Statistics<f64>> for Row { type Result = StatsVec<Statistics<f64>>; fn statistics_split_prec(&self, _: usize) -> ScalarResult<StatsVec<Statistics<f64>>> { loop {} } }

macro_rules! matrix {
    ($M:ident, $A:ty, $V:ty, $S:ty, $I:ty) => {
        use super::*;
        pub type M = $M<V, S, f64>;
        /// calls the operation if there is one for the matrix type and `NoSum` otherwise
        struct P<'a, T>(&'a T);
        impl<'a, T: SumOps<$A>> P<'a, T> {
            fn p_sum(&self) -> $A { self.0.sum() }
            fn p_sum_sq(&self) -> $A { self.0.sum_sq() }
        }
        trait NoSum { fn p_sum(&self) {} fn p_sum_sq(&self) {} }
        impl<'a, T> NoSum for P<'a, T> {}
        pub type MR = $M<Row, S, f64>;
        pub type MT = $M<RealTimeVec<S, f64>, S, f64>;
        pub fn domain(m: &M) -> DataDomain { MetaData::domain(m) }
        pub fn is_complex(m: &M) -> bool { MetaData::is_complex(m) }
        pub fn resize(m: &mut M, len: usize) -> VoidResult { ResizeOps::resize(m, len) }
        pub fn delta(m: &M) -> f64 { Matrix::delta(m) }
        pub fn set_delta(m: &mut M, delta: f64) { Matrix::set_delta(m, delta) }
        pub fn row_len(m: &M) -> usize { Matrix::row_len(m) }
        pub fn row_points(m: &M) -> usize { Matrix::row_points(m) }
        pub fn col_len(m: &M) -> usize { Matrix::col_len(m) }
        pub fn rows(m: &M) -> &[V] { Matrix::rows(m) }
        pub fn rows_mut(m: &mut M) -> &mut [V] { Matrix::rows_mut(m) }
        pub fn get_meta_data(m: &M) -> TypeMetaData<f64, N, D> { GetMetaData::get_meta_data(m) }
        pub fn scale(m: &mut M, x: f64) { ScaleOps::<f64>::scale(m, x) }
        pub fn scale__c(m: &mut M, x: Complex<f64>) { ScaleOps::<Complex<f64>>::scale(m, x) }
        pub fn offset(m: &mut M, x: f64) { OffsetOps::<f64>::offset(m, x) }
        pub fn offset__c(m: &mut M, x: Complex<f64>) { OffsetOps::<Complex<f64>>::offset(m, x) }
        pub fn add(m: &mut M, o: &M) -> VoidResult { ElementaryOps::<M, f64, N, D>::add(m, o) }
        pub fn add__vec(m: &mut M, o: &V) -> VoidResult { ElementaryOps::<V, f64, N, D>::add(m, o) }
        pub fn add_smaller(m: &mut M, o: &M) -> VoidResult { ElementaryWrapAroundOps::<M, f64, N, D>::add_smaller(m, o) }
        pub fn add_smaller__vec(m: &mut M, o: &V) -> VoidResult { ElementaryWrapAroundOps::<V, f64, N, D>::add_smaller(m, o) }
        pub fn sub(m: &mut M, o: &M) -> VoidResult { ElementaryOps::<M, f64, N, D>::sub(m, o) }
        pub fn sub__vec(m: &mut M, o: &V) -> VoidResult { ElementaryOps::<V, f64, N, D>::sub(m, o) }
        pub fn sub_smaller(m: &mut M, o: &M) -> VoidResult { ElementaryWrapAroundOps::<M, f64, N, D>::sub_smaller(m, o) }
        pub fn sub_smaller__vec(m: &mut M, o: &V) -> VoidResult { ElementaryWrapAroundOps::<V, f64, N, D>::sub_smaller(m, o) }
        pub fn mul(m: &mut M, o: &M) -> VoidResult { ElementaryOps::<M, f64, N, D>::mul(m, o) }
        pub fn mul__vec(m: &mut M, o: &V) -> VoidResult { ElementaryOps::<V, f64, N, D>::mul(m, o) }
        pub fn mul_smaller(m: &mut M, o: &M) -> VoidResult { ElementaryWrapAroundOps::<M, f64, N, D>::mul_smaller(m, o) }
        pub fn mul_smaller__vec(m: &mut M, o: &V) -> VoidResult { ElementaryWrapAroundOps::<V, f64, N, D>::mul_smaller(m, o) }
        pub fn div(m: &mut M, o: &M) -> VoidResult { ElementaryOps::<M, f64, N, D>::div(m, o) }
        pub fn div__vec(m: &mut M, o: &V) -> VoidResult { ElementaryOps::<V, f64, N, D>::div(m, o) }
        pub fn div_smaller(m: &mut M, o: &M) -> VoidResult { ElementaryWrapAroundOps::<M, f64, N, D>::div_smaller(m, o) }
        pub fn div_smaller__vec(m: &mut M, o: &V) -> VoidResult { ElementaryWrapAroundOps::<V, f64, N, D>::div_smaller(m, o) }
        pub fn reverse(m: &mut M) { ReorganizeDataOps::<f64>::reverse(m) }
        pub fn swap_halves(m: &mut M) { ReorganizeDataOps::<f64>::swap_halves(m) }
        pub fn diff(m: &mut M) { DiffSumOps::diff(m) }
        pub fn diff_with_start(m: &mut M) { DiffSumOps::diff_with_start(m) }
        pub fn cum_sum(m: &mut M) { DiffSumOps::cum_sum(m) }
        pub fn sin(m: &mut M) { TrigOps::sin(m) }
        pub fn cos(m: &mut M) { TrigOps::cos(m) }
        pub fn tan(m: &mut M) { TrigOps::tan(m) }
        pub fn asin(m: &mut M) { TrigOps::asin(m) }
        pub fn acos(m: &mut M) { TrigOps::acos(m) }
        pub fn atan(m: &mut M) { TrigOps::atan(m) }
        pub fn sinh(m: &mut M) { TrigOps::sinh(m) }
        pub fn cosh(m: &mut M) { TrigOps::cosh(m) }
        pub fn tanh(m: &mut M) { TrigOps::tanh(m) }
        pub fn asinh(m: &mut M) { TrigOps::asinh(m) }
        pub fn acosh(m: &mut M) { TrigOps::acosh(m) }
        pub fn atanh(m: &mut M) { TrigOps::atanh(m) }
        pub fn sqrt(m: &mut M) { PowerOps::<f64>::sqrt(m) }
        pub fn square(m: &mut M) { PowerOps::<f64>::square(m) }
        pub fn ln(m: &mut M) { PowerOps::<f64>::ln(m) }
        pub fn exp(m: &mut M) { PowerOps::<f64>::exp(m) }
        pub fn root(m: &mut M, x: f64) { PowerOps::<f64>::root(m, x) }
        pub fn powf(m: &mut M, x: f64) { PowerOps::<f64>::powf(m, x) }
        pub fn log(m: &mut M, x: f64) { PowerOps::<f64>::log(m, x) }
        pub fn expf(m: &mut M, x: f64) { PowerOps::<f64>::expf(m, x) }
        pub fn map_inplace(m: &mut M, arg: f64, f: &F1) { MapInplaceOps::<f64>::map_inplace(m, arg, f) }
        pub fn map_inplace__c(m: &mut M, arg: f64, f: &G1) { MapInplaceOps::<Complex<f64>>::map_inplace(m, arg, f) }
        pub fn dot_product(m: &M, o: &M) -> ScalarResult<Vec<f64>> { DotProductOps::<M, f64, f64, N, D>::dot_product(m, o) }
        pub fn dot_product__vec(m: &M, o: &V) -> ScalarResult<$A> { DotProductOps::<V, f64, f64, N, D>::dot_product(m, o) }
        pub fn dot_product_prec(m: &M, o: &M) -> ScalarResult<Vec<f64>> { PreciseDotProductOps::<M, f64, f64, N, D>::dot_product_prec(m, o) }
        pub fn dot_product_prec__vec(m: &M, o: &V) -> ScalarResult<$A> { PreciseDotProductOps::<V, f64, f64, N, D>::dot_product_prec(m, o) }
        pub fn map_aggregate(m: &M, arg: f64, f: &F1, g: &F2) -> ScalarResult<$A> { MapAggregateOps::<f64, f64>::map_aggregate(m, arg, f, g) }
        pub fn statistics(m: &MR) -> <MR as StatisticsOps<f64>>::Result { StatisticsOps::<f64>::statistics(m) }
        pub fn statistics_split(m: &MR, len: usize) -> ScalarResult<<MR as StatisticsSplitOps<f64>>::Result> { StatisticsSplitOps::<f64>::statistics_split(m, len) }
        pub fn statistics_prec(m: &MR) -> <MR as PreciseStatisticsOps<f64>>::Result { PreciseStatisticsOps::<f64>::statistics_prec(m) }
        pub fn statistics_split_prec(m: &MR, len: usize) -> ScalarResult<<MR as PreciseStatisticsSplitOps<f64>>::Result> { PreciseStatisticsSplitOps::<f64>::statistics_split_prec(m, len) }
        pub fn sum(m: &M) -> impl Sized { P(m).p_sum() }
        pub fn sum_prec(m: &M) -> $A { PreciseSumOps::<$A>::sum_prec(m) }
        pub fn sum_sq(m: &M) -> impl Sized { P(m).p_sum_sq() }
        pub fn sum_sq_prec(m: &M) -> $A { PreciseSumOps::<$A>::sum_sq_prec(m) }
        pub fn magnitude(m: M) -> <M as ToRealResult>::RealResult { ComplexToRealTransformsOps::<f64>::magnitude(m) }
        pub fn magnitude_b(m: M, buffer: &mut B) -> <M as ToRealResult>::RealResult { ComplexToRealTransformsOpsBuffered::<S, f64>::magnitude_b(m, buffer) }
        pub fn magnitude_squared(m: M) -> <M as ToRealResult>::RealResult { ComplexToRealTransformsOps::<f64>::magnitude_squared(m) }
        pub fn magnitude_squared_b(m: M, buffer: &mut B) -> <M as ToRealResult>::RealResult { ComplexToRealTransformsOpsBuffered::<S, f64>::magnitude_squared_b(m, buffer) }
        pub fn to_real(m: M) -> <M as ToRealResult>::RealResult { ComplexToRealTransformsOps::<f64>::to_real(m) }
        pub fn to_real_b(m: M, buffer: &mut B) -> <M as ToRealResult>::RealResult { ComplexToRealTransformsOpsBuffered::<S, f64>::to_real_b(m, buffer) }
        pub fn to_imag(m: M) -> <M as ToRealResult>::RealResult { ComplexToRealTransformsOps::<f64>::to_imag(m) }
        pub fn to_imag_b(m: M, buffer: &mut B) -> <M as ToRealResult>::RealResult { ComplexToRealTransformsOpsBuffered::<S, f64>::to_imag_b(m, buffer) }
        pub fn phase(m: M) -> <M as ToRealResult>::RealResult { ComplexToRealTransformsOps::<f64>::phase(m) }
        pub fn phase_b(m: M, buffer: &mut B) -> <M as ToRealResult>::RealResult { ComplexToRealTransformsOpsBuffered::<S, f64>::phase_b(m, buffer) }
        pub fn get_real(m: &M, d: &mut M) { ComplexToRealGetterOps::<M, f64, N, D>::get_real(m, d) }
        pub fn get_imag(m: &M, d: &mut M) { ComplexToRealGetterOps::<M, f64, N, D>::get_imag(m, d) }
        pub fn get_magnitude(m: &M, d: &mut M) { ComplexToRealGetterOps::<M, f64, N, D>::get_magnitude(m, d) }
        pub fn get_magnitude_squared(m: &M, d: &mut M) { ComplexToRealGetterOps::<M, f64, N, D>::get_magnitude_squared(m, d) }
        pub fn get_phase(m: &M, d: &mut M) { ComplexToRealGetterOps::<M, f64, N, D>::get_phase(m, d) }
        pub fn get_real_imag(m: &M, a: &mut M, b: &mut M) { ComplexToRealGetterOps::<M, f64, N, D>::get_real_imag(m, a, b) }
        pub fn get_mag_phase(m: &M, a: &mut M, b: &mut M) { ComplexToRealGetterOps::<M, f64, N, D>::get_mag_phase(m, a, b) }
        pub fn set_real_imag(m: &mut M, a: &M, b: &M) -> VoidResult { ComplexToRealSetterOps::<M, f64, N, D>::set_real_imag(m, a, b) }
        pub fn set_mag_phase(m: &mut M, a: &M, b: &M) -> VoidResult { ComplexToRealSetterOps::<M, f64, N, D>::set_mag_phase(m, a, b) }
        pub fn multiply_complex_exponential(m: &mut M, a: f64, b: f64) { ComplexOps::<f64>::multiply_complex_exponential(m, a, b) }
        pub fn conj(m: &mut M) { ComplexOps::<f64>::conj(m) }
        pub fn to_complex(m: M) -> TransRes<<M as ToComplexResult>::ComplexResult> { RealToComplexTransformsOps::<f64>::to_complex(m) }
        pub fn to_complex_b(m: M, buffer: &mut B) -> <M as ToComplexResult>::ComplexResult { RealToComplexTransformsOpsBuffered::<S, f64>::to_complex_b(m, buffer) }
        pub fn abs(m: &mut M) { RealOps::abs(m) }
        pub fn wrap(m: &mut M, x: f64) { ModuloOps::<f64>::wrap(m, x) }
        pub fn unwrap(m: &mut M, x: f64) { ModuloOps::<f64>::unwrap(m, x) }
        pub fn ln_approx(m: &mut M) { ApproximatedOps::<f64>::ln_approx(m) }
        pub fn exp_approx(m: &mut M) { ApproximatedOps::<f64>::exp_approx(m) }
        pub fn sin_approx(m: &mut M) { ApproximatedOps::<f64>::sin_approx(m) }
        pub fn cos_approx(m: &mut M) { ApproximatedOps::<f64>::cos_approx(m) }
        pub fn log_approx(m: &mut M, x: f64) { ApproximatedOps::<f64>::log_approx(m, x) }
        pub fn expf_approx(m: &mut M, x: f64) { ApproximatedOps::<f64>::expf_approx(m, x) }
        pub fn powf_approx(m: &mut M, x: f64) { ApproximatedOps::<f64>::powf_approx(m, x) }
        pub fn plain_fft(m: M, buffer: &mut B) -> <M as ToFreqResult>::FreqResult { TimeToFrequencyDomainOperations::<S, f64>::plain_fft(m, buffer) }
        pub fn fft(m: M, buffer: &mut B) -> <M as ToFreqResult>::FreqResult { TimeToFrequencyDomainOperations::<S, f64>::fft(m, buffer) }
        pub fn windowed_fft(m: M, buffer: &mut B, w: &dyn WindowFunction<f64>) -> <M as ToFreqResult>::FreqResult { TimeToFrequencyDomainOperations::<S, f64>::windowed_fft(m, buffer, w) }
        pub fn plain_sfft(m: M, buffer: &mut B) -> TransRes<<M as ToFreqResult>::FreqResult> { SymmetricTimeToFrequencyDomainOperations::<S, f64>::plain_sfft(m, buffer) }
        pub fn sfft(m: M, buffer: &mut B) -> TransRes<<M as ToFreqResult>::FreqResult> { SymmetricTimeToFrequencyDomainOperations::<S, f64>::sfft(m, buffer) }
        pub fn windowed_sfft(m: M, buffer: &mut B, w: &dyn WindowFunction<f64>) -> TransRes<<M as ToFreqResult>::FreqResult> { SymmetricTimeToFrequencyDomainOperations::<S, f64>::windowed_sfft(m, buffer, w) }
        pub fn plain_ifft(m: M, buffer: &mut B) -> <M as ToTimeResult>::TimeResult { FrequencyToTimeDomainOperations::<S, f64>::plain_ifft(m, buffer) }
        pub fn ifft(m: M, buffer: &mut B) -> <M as ToTimeResult>::TimeResult { FrequencyToTimeDomainOperations::<S, f64>::ifft(m, buffer) }
        pub fn windowed_ifft(m: M, buffer: &mut B, w: &dyn WindowFunction<f64>) -> <M as ToTimeResult>::TimeResult { FrequencyToTimeDomainOperations::<S, f64>::windowed_ifft(m, buffer, w) }
        pub fn plain_sifft(m: M, buffer: &mut B) -> TransRes<<M as ToRealTimeResult>::RealTimeResult> { SymmetricFrequencyToTimeDomainOperations::<S, f64>::plain_sifft(m, buffer) }
        pub fn sifft(m: M, buffer: &mut B) -> TransRes<<M as ToRealTimeResult>::RealTimeResult> { SymmetricFrequencyToTimeDomainOperations::<S, f64>::sifft(m, buffer) }
        pub fn windowed_sifft(m: M, buffer: &mut B, w: &dyn WindowFunction<f64>) -> TransRes<<M as ToRealTimeResult>::RealTimeResult> { SymmetricFrequencyToTimeDomainOperations::<S, f64>::windowed_sifft(m, buffer, w) }
        pub fn mirror(m: &mut M, buffer: &mut B) { FrequencyDomainOperations::<S, f64>::mirror(m, buffer) }
        pub fn fft_shift(m: &mut M) { FrequencyDomainOperations::<S, f64>::fft_shift(m) }
        pub fn ifft_shift(m: &mut M) { FrequencyDomainOperations::<S, f64>::ifft_shift(m) }
        pub fn apply_window(m: &mut M, w: &dyn WindowFunction<f64>) { TimeDomainOperations::<S, f64>::apply_window(m, w) }
        pub fn unapply_window(m: &mut M, w: &dyn WindowFunction<f64>) { TimeDomainOperations::<S, f64>::unapply_window(m, w) }
        pub fn prepare_argument(m: M, buffer: &mut B) -> <M as ToFreqResult>::FreqResult { CrossCorrelationArgumentOps::<S, f64>::prepare_argument(m, buffer) }
        pub fn prepare_argument_padded(m: M, buffer: &mut B) -> <M as ToFreqResult>::FreqResult { CrossCorrelationArgumentOps::<S, f64>::prepare_argument_padded(m, buffer) }
        pub fn correlate(m: &mut M, buffer: &mut B, o: &M) -> VoidResult { CrossCorrelationOps::<M, S, f64, N, D>::correlate(m, buffer, o) }
        pub fn interpolatef(m: &mut M, buffer: &mut B, f: &dyn RealImpulseResponse<f64>, factor: f64, delay: f64, len: usize) { InterpolationOps::<S, f64>::interpolatef(m, buffer, f, factor, delay, len) }
        pub fn interpolatei(m: &mut M, buffer: &mut B, f: &dyn RealFrequencyResponse<f64>, factor: u32) -> VoidResult { InterpolationOps::<S, f64>::interpolatei(m, buffer, f, factor) }
        pub fn interpolate(m: &mut M, buffer: &mut B, f: Option<&dyn RealFrequencyResponse<f64>>, dest_points: usize, delay: f64) -> VoidResult { InterpolationOps::<S, f64>::interpolate(m, buffer, f, dest_points, delay) }
        pub fn interpft(m: &mut M, buffer: &mut B, dest_points: usize) { InterpolationOps::<S, f64>::interpft(m, buffer, dest_points) }
        pub fn decimatei(m: &mut M, factor: u32, delay: u32) { InterpolationOps::<S, f64>::decimatei(m, factor, delay) }
        pub fn interpolate_lin(m: &mut M, buffer: &mut B, factor: f64, delay: f64) { RealInterpolationOps::<S, f64>::interpolate_lin(m, buffer, factor, delay) }
        pub fn interpolate_hermite(m: &mut M, buffer: &mut B, factor: f64, delay: f64) { RealInterpolationOps::<S, f64>::interpolate_hermite(m, buffer, factor, delay) }
        pub fn convolve__real(m: &mut M, buffer: &mut B, f: &dyn RealImpulseResponse<f64>, ratio: f64, len: usize) { Convolution::<S, f64, &dyn RealImpulseResponse<f64>>::convolve(m, buffer, f, ratio, len) }
        pub fn multiply_frequency_response__real(m: &mut M, f: &dyn RealFrequencyResponse<f64>, ratio: f64) { FrequencyMultiplication::<S, f64, &dyn RealFrequencyResponse<f64>>::multiply_frequency_response(m, f, ratio) }
        pub fn convolve__complex(m: &mut M, buffer: &mut B, f: &dyn ComplexImpulseResponse<f64>, ratio: f64, len: usize) { Convolution::<S, f64, &dyn ComplexImpulseResponse<f64>>::convolve(m, buffer, f, ratio, len) }
        pub fn multiply_frequency_response__complex(m: &mut M, f: &dyn ComplexFrequencyResponse<f64>, ratio: f64) { FrequencyMultiplication::<S, f64, &dyn ComplexFrequencyResponse<f64>>::multiply_frequency_response(m, f, ratio) }
        pub fn convolve_signal__vec(m: &mut M, buffer: &mut B, o: &V) -> VoidResult { ConvolutionOps::<V, S, f64, N, D>::convolve_signal(m, buffer, o) }
        pub fn convolve_signal__mat(m: &mut M, buffer: &mut B, o: &$I) -> VoidResult { ConvolutionOps::<$I, S, f64, N, D>::convolve_signal(m, buffer, o) }
        pub fn rededicate_from_force(m: M) -> MT { <MT as RededicateForceOps<M>>::rededicate_from_force(m) }
        pub fn rededicate_with_runtime_data(m: M, is_complex: bool, domain: DataDomain) -> MT { <MT as RededicateForceOps<M>>::rededicate_with_runtime_data(m, is_complex, domain) }
        pub fn get(m: M) -> (<M as FromMatrix<f64>>::Output, usize) { FromMatrix::<f64>::get(m) }
        pub fn to_mat(r: $V) -> M { ToMatrix::to_mat(r) }
        pub fn to_gen_dsp_mat(r: $S, is_complex: bool, domain: DataDomain) -> M { ToDspMatrix::to_gen_dsp_mat(r, is_complex, domain) }
        pub fn to_real_time_mat(r: $S) -> <$S as ToRealTimeMatrix<RealTimeVec<S, f64>, f64>>::Output { ToRealTimeMatrix::<RealTimeVec<S, f64>, f64>::to_real_time_mat(r) }
        pub fn to_real_freq_mat(r: $S) -> <$S as ToRealFreqMatrix<RealFreqVec<S, f64>, f64>>::Output { ToRealFreqMatrix::<RealFreqVec<S, f64>, f64>::to_real_freq_mat(r) }
        pub fn to_complex_time_mat(r: $S) -> <$S as ToComplexTimeMatrix<ComplexTimeVec<S, f64>, f64>>::Output { ToComplexTimeMatrix::<ComplexTimeVec<S, f64>, f64>::to_complex_time_mat(r) }
    };
}
pub mod mxn { matrix!(MatrixMxN, Vec<f64>, Vec<V>, Vec<S>, Vec<&Vec<&V>>); }
pub mod m2 { matrix!(Matrix2xN, [f64; 2], [V; 2], [S; 2], [[&V; 2]; 2]); }
pub mod m3 { matrix!(Matrix3xN, [f64; 3], [V; 3], [S; 3], [[&V; 3]; 3]); }
pub mod m4 { matrix!(Matrix4xN, [f64; 4], [V; 4], [S; 4], [[&V; 4]; 4]); }
