//! Entry points for the static analysis: every public vector operation, instantiated with
//! concrete types so that the compiler resolves each call. Nothing here is ever run.
#![allow(unused_imports, dead_code, clippy::all)]
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
use num_complex::Complex;

macro_rules! common {
    ($T:ty, $S:ty) => {
        pub fn reverse(v: &mut V) { ReorganizeDataOps::<$T>::reverse(v) }
        pub fn swap_halves(v: &mut V) { ReorganizeDataOps::<$T>::swap_halves(v) }
        pub fn zero_pad(v: &mut V, points: usize, option: PaddingOption) -> VoidResult { InsertZerosOps::<$T>::zero_pad(v, points, option) }
        pub fn zero_interleave(v: &mut V, factor: u32) -> VoidResult { InsertZerosOps::<$T>::zero_interleave(v, factor) }
        pub fn zero_pad_b(v: &mut V, buffer: &mut B, points: usize, option: PaddingOption) -> VoidResult { InsertZerosOpsBuffered::<$S, $T>::zero_pad_b(v, buffer, points, option) }
        pub fn zero_interleave_b(v: &mut V, buffer: &mut B, factor: u32) { InsertZerosOpsBuffered::<$S, $T>::zero_interleave_b(v, buffer, factor) }
        pub fn split_into(v: &V, targets: &mut [&mut V]) -> VoidResult { SplitOps::split_into(v, targets) }
        pub fn merge(v: &mut V, sources: &[&V]) -> VoidResult { MergeOps::merge(v, sources) }
        pub fn diff(v: &mut V) { DiffSumOps::diff(v) }
        pub fn diff_with_start(v: &mut V) { DiffSumOps::diff_with_start(v) }
        pub fn cum_sum(v: &mut V) { DiffSumOps::cum_sum(v) }
        pub fn add(v: &mut V, o: &V) -> VoidResult { ElementaryOps::add(v, o) }
        pub fn sub(v: &mut V, o: &V) -> VoidResult { ElementaryOps::sub(v, o) }
        pub fn mul(v: &mut V, o: &V) -> VoidResult { ElementaryOps::mul(v, o) }
        pub fn div(v: &mut V, o: &V) -> VoidResult { ElementaryOps::div(v, o) }
        pub fn add_smaller(v: &mut V, o: &V) -> VoidResult { ElementaryWrapAroundOps::add_smaller(v, o) }
        pub fn sub_smaller(v: &mut V, o: &V) -> VoidResult { ElementaryWrapAroundOps::sub_smaller(v, o) }
        pub fn mul_smaller(v: &mut V, o: &V) -> VoidResult { ElementaryWrapAroundOps::mul_smaller(v, o) }
        pub fn div_smaller(v: &mut V, o: &V) -> VoidResult { ElementaryWrapAroundOps::div_smaller(v, o) }
        pub fn sin(v: &mut V) { TrigOps::sin(v) }
        pub fn cos(v: &mut V) { TrigOps::cos(v) }
        pub fn tan(v: &mut V) { TrigOps::tan(v) }
        pub fn asin(v: &mut V) { TrigOps::asin(v) }
        pub fn acos(v: &mut V) { TrigOps::acos(v) }
        pub fn atan(v: &mut V) { TrigOps::atan(v) }
        pub fn sinh(v: &mut V) { TrigOps::sinh(v) }
        pub fn cosh(v: &mut V) { TrigOps::cosh(v) }
        pub fn tanh(v: &mut V) { TrigOps::tanh(v) }
        pub fn asinh(v: &mut V) { TrigOps::asinh(v) }
        pub fn acosh(v: &mut V) { TrigOps::acosh(v) }
        pub fn atanh(v: &mut V) { TrigOps::atanh(v) }
        pub fn sqrt(v: &mut V) { PowerOps::<$T>::sqrt(v) }
        pub fn square(v: &mut V) { PowerOps::<$T>::square(v) }
        pub fn root(v: &mut V, degree: $T) { PowerOps::<$T>::root(v, degree) }
        pub fn powf(v: &mut V, exponent: $T) { PowerOps::<$T>::powf(v, exponent) }
        pub fn ln(v: &mut V) { PowerOps::<$T>::ln(v) }
        pub fn exp(v: &mut V) { PowerOps::<$T>::exp(v) }
        pub fn log(v: &mut V, base: $T) { PowerOps::<$T>::log(v, base) }
        pub fn expf(v: &mut V, base: $T) { PowerOps::<$T>::expf(v, base) }
        pub fn resize(v: &mut V, len: usize) -> VoidResult { ResizeOps::resize(v, len) }
        pub fn resize_b(v: &mut V, buffer: &mut B, len: usize) -> VoidResult { ResizeBufferedOps::<$S, $T>::resize_b(v, buffer, len) }
        pub fn set_delta(v: &mut V, d: $T) { Vector::<$T>::set_delta(v, d) }
        pub fn delta(v: &V) -> $T { Vector::<$T>::delta(v) }
        pub fn len(v: &V) -> usize { Vector::<$T>::len(v) }
        pub fn points(v: &V) -> usize { Vector::<$T>::points(v) }
        pub fn is_complex(v: &V) -> bool { MetaData::is_complex(v) }
        pub fn domain(v: &V) -> DataDomain { MetaData::domain(v) }
        pub fn data(v: &V, i: usize) -> &$T { FloatIndex::<usize>::data(v, i) }
        pub fn data_mut(v: &mut V, i: usize) -> &mut $T { FloatIndexMut::<usize>::data_mut(v, i) }
        pub fn data_range(v: &V, i: core::ops::Range<usize>) -> &[$T] { FloatIndex::<core::ops::Range<usize>>::data(v, i) }
        pub fn data_range_mut(v: &mut V, i: core::ops::Range<usize>) -> &mut [$T] { FloatIndexMut::<core::ops::Range<usize>>::data_mut(v, i) }
        pub fn data_full(v: &V) -> &[$T] { FloatIndex::<core::ops::RangeFull>::data(v, ..) }
        pub fn data_full_mut(v: &mut V) -> &mut [$T] { FloatIndexMut::<core::ops::RangeFull>::data_mut(v, ..) }
        pub fn data_from(v: &V, i: core::ops::RangeFrom<usize>) -> &[$T] { FloatIndex::<core::ops::RangeFrom<usize>>::data(v, i) }
        pub fn data_from_mut(v: &mut V, i: core::ops::RangeFrom<usize>) -> &mut [$T] { FloatIndexMut::<core::ops::RangeFrom<usize>>::data_mut(v, i) }
        pub fn data_to(v: &V, i: core::ops::RangeTo<usize>) -> &[$T] { FloatIndex::<core::ops::RangeTo<usize>>::data(v, i) }
        pub fn data_to_mut(v: &mut V, i: core::ops::RangeTo<usize>) -> &mut [$T] { FloatIndexMut::<core::ops::RangeTo<usize>>::data_mut(v, i) }
        pub fn get_meta_data(v: &V) -> TypeMetaData<$T, N, D> { GetMetaData::get_meta_data(v) }
        pub fn rededicate_from(o: GenV) -> V { <V as RededicateOps<GenV>>::rededicate_from(o) }
        pub fn clone(v: &V) -> V { v.clone() }
        pub fn getf(v: V) -> ($S, usize) { FromVectorFloat::<$T>::getf(v) }
        pub fn interpolatef(v: &mut V, buffer: &mut B, f: &dyn RealImpulseResponse<$T>, factor: $T, delay: $T, len: usize) { InterpolationOps::<$S, $T>::interpolatef(v, buffer, f, factor, delay, len) }
        pub fn interpolatei(v: &mut V, buffer: &mut B, f: &dyn RealFrequencyResponse<$T>, factor: u32) -> VoidResult { InterpolationOps::<$S, $T>::interpolatei(v, buffer, f, factor) }
        pub fn interpolate(v: &mut V, buffer: &mut B, f: Option<&dyn RealFrequencyResponse<$T>>, dest_points: usize, delay: $T) -> VoidResult { InterpolationOps::<$S, $T>::interpolate(v, buffer, f, dest_points, delay) }
        pub fn interpft(v: &mut V, buffer: &mut B, dest_points: usize) { InterpolationOps::<$S, $T>::interpft(v, buffer, dest_points) }
        pub fn decimatei(v: &mut V, factor: u32, delay: u32) { InterpolationOps::<$S, $T>::decimatei(v, factor, delay) }
    };
}
macro_rules! real_ops {
    ($T:ty, $S:ty) => {
        pub fn scale(v: &mut V, x: $T) { ScaleOps::<$T>::scale(v, x) }
        pub fn offset(v: &mut V, x: $T) { OffsetOps::<$T>::offset(v, x) }
        pub fn abs(v: &mut V) { RealOps::abs(v) }
        pub fn wrap(v: &mut V, x: $T) { ModuloOps::<$T>::wrap(v, x) }
        pub fn unwrap(v: &mut V, x: $T) { ModuloOps::<$T>::unwrap(v, x) }
        pub fn ln_approx(v: &mut V) { ApproximatedOps::<$T>::ln_approx(v) }
        pub fn exp_approx(v: &mut V) { ApproximatedOps::<$T>::exp_approx(v) }
        pub fn sin_approx(v: &mut V) { ApproximatedOps::<$T>::sin_approx(v) }
        pub fn cos_approx(v: &mut V) { ApproximatedOps::<$T>::cos_approx(v) }
        pub fn log_approx(v: &mut V, x: $T) { ApproximatedOps::<$T>::log_approx(v, x) }
        pub fn expf_approx(v: &mut V, x: $T) { ApproximatedOps::<$T>::expf_approx(v, x) }
        pub fn powf_approx(v: &mut V, x: $T) { ApproximatedOps::<$T>::powf_approx(v, x) }
        pub fn dot_product(v: &V, o: &V) -> ScalarResult<$T> { DotProductOps::<V, $T, $T, N, D>::dot_product(v, o) }
        pub fn dot_product_prec(v: &V, o: &V) -> ScalarResult<$T> { PreciseDotProductOps::<V, $T, $T, N, D>::dot_product_prec(v, o) }
        pub fn statistics(v: &V) -> Statistics<$T> { StatisticsOps::<$T>::statistics(v) }
        pub fn statistics_split(v: &V, n: usize) -> ScalarResult<StatsVec<Statistics<$T>>> { StatisticsSplitOps::<$T>::statistics_split(v, n) }
        pub fn sum(v: &V) -> $T { SumOps::<$T>::sum(v) }
        pub fn sum_sq(v: &V) -> $T { SumOps::<$T>::sum_sq(v) }
        pub fn map_inplace(v: &mut V, arg: $T, f: &F1) { MapInplaceOps::<$T>::map_inplace(v, arg, f) }
        pub fn map_aggregate(v: &V, arg: $T, f: &F1, g: &F2) -> ScalarResult<$T> { MapAggregateOps::<$T, $T>::map_aggregate(v, arg, f, g) }
        pub fn to_complex(v: V) -> TransRes<<V as ToComplexResult>::ComplexResult> { RealToComplexTransformsOps::<$T>::to_complex(v) }
        pub fn to_complex_b(v: V, buffer: &mut B) -> <V as ToComplexResult>::ComplexResult { RealToComplexTransformsOpsBuffered::<$S, $T>::to_complex_b(v, buffer) }
        pub fn interpolate_lin(v: &mut V, buffer: &mut B, factor: $T, delay: $T) { RealInterpolationOps::<$S, $T>::interpolate_lin(v, buffer, factor, delay) }
        pub fn interpolate_hermite(v: &mut V, buffer: &mut B, factor: $T, delay: $T) { RealInterpolationOps::<$S, $T>::interpolate_hermite(v, buffer, factor, delay) }
        pub type F1 = fn($T, usize, $T) -> $T;
        pub type F2 = fn($T, $T) -> $T;
    };
}
macro_rules! prec64_real {
    ($T:ty) => {
        pub fn statistics_prec(v: &V) -> <V as PreciseStatisticsOps<f64>>::Result { PreciseStatisticsOps::<f64>::statistics_prec(v) }
        pub fn statistics_split_prec(v: &V, n: usize) -> ScalarResult<<V as PreciseStatisticsSplitOps<f64>>::Result> { PreciseStatisticsSplitOps::<f64>::statistics_split_prec(v, n) }
        pub fn sum_prec(v: &V) -> f64 { PreciseSumOps::<f64>::sum_prec(v) }
        pub fn sum_sq_prec(v: &V) -> f64 { PreciseSumOps::<f64>::sum_sq_prec(v) }
    };
}
macro_rules! prec64_complex {
    ($T:ty) => {
        pub fn statistics_prec_c(v: &V) -> <V as PreciseStatisticsOps<Complex<f64>>>::Result { PreciseStatisticsOps::<Complex<f64>>::statistics_prec(v) }
        pub fn statistics_split_prec_c(v: &V, n: usize) -> ScalarResult<<V as PreciseStatisticsSplitOps<Complex<f64>>>::Result> { PreciseStatisticsSplitOps::<Complex<f64>>::statistics_split_prec(v, n) }
        pub fn sum_prec_c(v: &V) -> Complex<f64> { PreciseSumOps::<Complex<f64>>::sum_prec(v) }
        pub fn sum_sq_prec_c(v: &V) -> Complex<f64> { PreciseSumOps::<Complex<f64>>::sum_sq_prec(v) }
    };
}
macro_rules! complex_ops {
    ($T:ty, $S:ty) => {
        pub fn scale_c(v: &mut V, x: Complex<$T>) { ScaleOps::<Complex<$T>>::scale(v, x) }
        pub fn offset_c(v: &mut V, x: Complex<$T>) { OffsetOps::<Complex<$T>>::offset(v, x) }
        pub fn conj(v: &mut V) { ComplexOps::<$T>::conj(v) }
        pub fn multiply_complex_exponential(v: &mut V, a: $T, b: $T) { ComplexOps::<$T>::multiply_complex_exponential(v, a, b) }
        pub fn magnitude(v: V) -> RealR { ComplexToRealTransformsOps::<$T>::magnitude(v) }
        pub fn magnitude_squared(v: V) -> RealR { ComplexToRealTransformsOps::<$T>::magnitude_squared(v) }
        pub fn to_real(v: V) -> RealR { ComplexToRealTransformsOps::<$T>::to_real(v) }
        pub fn to_imag(v: V) -> RealR { ComplexToRealTransformsOps::<$T>::to_imag(v) }
        pub fn phase(v: V) -> RealR { ComplexToRealTransformsOps::<$T>::phase(v) }
        pub fn magnitude_b(v: V, buffer: &mut B) -> RealR { ComplexToRealTransformsOpsBuffered::<$S, $T>::magnitude_b(v, buffer) }
        pub fn magnitude_squared_b(v: V, buffer: &mut B) -> RealR { ComplexToRealTransformsOpsBuffered::<$S, $T>::magnitude_squared_b(v, buffer) }
        pub fn to_real_b(v: V, buffer: &mut B) -> RealR { ComplexToRealTransformsOpsBuffered::<$S, $T>::to_real_b(v, buffer) }
        pub fn to_imag_b(v: V, buffer: &mut B) -> RealR { ComplexToRealTransformsOpsBuffered::<$S, $T>::to_imag_b(v, buffer) }
        pub fn phase_b(v: V, buffer: &mut B) -> RealR { ComplexToRealTransformsOpsBuffered::<$S, $T>::phase_b(v, buffer) }
        pub fn get_real(v: &V, d: &mut RealA) { ComplexToRealGetterOps::get_real(v, d) }
        pub fn get_imag(v: &V, d: &mut RealA) { ComplexToRealGetterOps::get_imag(v, d) }
        pub fn get_magnitude(v: &V, d: &mut RealA) { ComplexToRealGetterOps::get_magnitude(v, d) }
        pub fn get_magnitude_squared(v: &V, d: &mut RealA) { ComplexToRealGetterOps::get_magnitude_squared(v, d) }
        pub fn get_phase(v: &V, d: &mut RealA) { ComplexToRealGetterOps::get_phase(v, d) }
        pub fn get_real_imag(v: &V, a: &mut RealA, b: &mut RealA) { ComplexToRealGetterOps::get_real_imag(v, a, b) }
        pub fn get_mag_phase(v: &V, a: &mut RealA, b: &mut RealA) { ComplexToRealGetterOps::get_mag_phase(v, a, b) }
        pub fn set_real_imag(v: &mut V, a: &RealA, b: &RealA) -> VoidResult { ComplexToRealSetterOps::set_real_imag(v, a, b) }
        pub fn set_mag_phase(v: &mut V, a: &RealA, b: &RealA) -> VoidResult { ComplexToRealSetterOps::set_mag_phase(v, a, b) }
        pub fn dot_product_c(v: &V, o: &V) -> ScalarResult<Complex<$T>> { DotProductOps::<V, Complex<$T>, $T, N, D>::dot_product(v, o) }
        pub fn dot_product_prec_c(v: &V, o: &V) -> ScalarResult<Complex<$T>> { PreciseDotProductOps::<V, Complex<$T>, $T, N, D>::dot_product_prec(v, o) }
        pub fn statistics_c(v: &V) -> Statistics<Complex<$T>> { StatisticsOps::<Complex<$T>>::statistics(v) }
        pub fn statistics_split_c(v: &V, n: usize) -> ScalarResult<StatsVec<Statistics<Complex<$T>>>> { StatisticsSplitOps::<Complex<$T>>::statistics_split(v, n) }
        pub fn sum_c(v: &V) -> Complex<$T> { SumOps::<Complex<$T>>::sum(v) }
        pub fn sum_sq_c(v: &V) -> Complex<$T> { SumOps::<Complex<$T>>::sum_sq(v) }
        pub fn map_inplace_c(v: &mut V, arg: $T, f: &G1) { MapInplaceOps::<Complex<$T>>::map_inplace(v, arg, f) }
        pub fn map_aggregate_c(v: &V, arg: $T, f: &G1, g: &G2) -> ScalarResult<Complex<$T>> { MapAggregateOps::<Complex<$T>, Complex<$T>>::map_aggregate(v, arg, f, g) }
        pub type RealR = <V as ToRealResult>::RealResult;
        pub type G1 = fn(Complex<$T>, usize, $T) -> Complex<$T>;
        pub type G2 = fn(Complex<$T>, Complex<$T>) -> Complex<$T>;
        pub fn datac(v: &V, i: usize) -> &Complex<$T> { ComplexIndex::<usize>::datac(v, i) }
        pub fn datac_mut(v: &mut V, i: usize) -> &mut Complex<$T> { ComplexIndexMut::<usize>::datac_mut(v, i) }
        pub fn datac_range(v: &V, i: core::ops::Range<usize>) -> &[Complex<$T>] { ComplexIndex::<core::ops::Range<usize>>::datac(v, i) }
        pub fn datac_range_mut(v: &mut V, i: core::ops::Range<usize>) -> &mut [Complex<$T>] { ComplexIndexMut::<core::ops::Range<usize>>::datac_mut(v, i) }
        pub fn datac_full(v: &V) -> &[Complex<$T>] { ComplexIndex::<core::ops::RangeFull>::datac(v, ..) }
        pub fn datac_full_mut(v: &mut V) -> &mut [Complex<$T>] { ComplexIndexMut::<core::ops::RangeFull>::datac_mut(v, ..) }
        pub fn datac_from(v: &V, i: core::ops::RangeFrom<usize>) -> &[Complex<$T>] { ComplexIndex::<core::ops::RangeFrom<usize>>::datac(v, i) }
        pub fn datac_from_mut(v: &mut V, i: core::ops::RangeFrom<usize>) -> &mut [Complex<$T>] { ComplexIndexMut::<core::ops::RangeFrom<usize>>::datac_mut(v, i) }
        pub fn datac_to(v: &V, i: core::ops::RangeTo<usize>) -> &[Complex<$T>] { ComplexIndex::<core::ops::RangeTo<usize>>::datac(v, i) }
        pub fn datac_to_mut(v: &mut V, i: core::ops::RangeTo<usize>) -> &mut [Complex<$T>] { ComplexIndexMut::<core::ops::RangeTo<usize>>::datac_mut(v, i) }
    };
}
macro_rules! time_ops {
    ($T:ty, $S:ty) => {
        pub fn apply_window(v: &mut V, w: &dyn WindowFunction<$T>) { TimeDomainOperations::<$S, $T>::apply_window(v, w) }
        pub fn unapply_window(v: &mut V, w: &dyn WindowFunction<$T>) { TimeDomainOperations::<$S, $T>::unapply_window(v, w) }
        pub fn plain_fft(v: V, buffer: &mut B) -> FreqR { TimeToFrequencyDomainOperations::<$S, $T>::plain_fft(v, buffer) }
        pub fn fft(v: V, buffer: &mut B) -> FreqR { TimeToFrequencyDomainOperations::<$S, $T>::fft(v, buffer) }
        pub fn windowed_fft(v: V, buffer: &mut B, w: &dyn WindowFunction<$T>) -> FreqR { TimeToFrequencyDomainOperations::<$S, $T>::windowed_fft(v, buffer, w) }
        pub fn convolve_signal(v: &mut V, buffer: &mut B, o: &V) -> VoidResult { ConvolutionOps::<V, $S, $T, N, D>::convolve_signal(v, buffer, o) }
        pub fn convolve_real(v: &mut V, buffer: &mut B, f: &dyn RealImpulseResponse<$T>, ratio: $T, len: usize) { Convolution::<$S, $T, &dyn RealImpulseResponse<$T>>::convolve(v, buffer, f, ratio, len) }
        pub type FreqR = <V as ToFreqResult>::FreqResult;
    };
}
macro_rules! real_time_ops {
    ($T:ty, $S:ty) => {
        pub fn plain_sfft(v: V, buffer: &mut B) -> TransRes<FreqR> { SymmetricTimeToFrequencyDomainOperations::<$S, $T>::plain_sfft(v, buffer) }
        pub fn sfft(v: V, buffer: &mut B) -> TransRes<FreqR> { SymmetricTimeToFrequencyDomainOperations::<$S, $T>::sfft(v, buffer) }
        pub fn windowed_sfft(v: V, buffer: &mut B, w: &dyn WindowFunction<$T>) -> TransRes<FreqR> { SymmetricTimeToFrequencyDomainOperations::<$S, $T>::windowed_sfft(v, buffer, w) }
    };
}
macro_rules! complex_time_ops {
    ($T:ty, $S:ty) => {
        pub fn convolve_complex(v: &mut V, buffer: &mut B, f: &dyn ComplexImpulseResponse<$T>, ratio: $T, len: usize) { Convolution::<$S, $T, &dyn ComplexImpulseResponse<$T>>::convolve(v, buffer, f, ratio, len) }
    };
}
macro_rules! correlate_ops {
    ($T:ty, $S:ty, $F:ty) => {
        pub fn correlate(v: &mut V, buffer: &mut B, o: &$F) -> VoidResult { CrossCorrelationOps::<$F, $S, $T, N, <$F as FreqD>::D>::correlate(v, buffer, o) }
        pub fn prepare_argument(v: V, buffer: &mut B) -> FreqR { CrossCorrelationArgumentOps::<$S, $T>::prepare_argument(v, buffer) }
        pub fn prepare_argument_padded(v: V, buffer: &mut B) -> FreqR { CrossCorrelationArgumentOps::<$S, $T>::prepare_argument_padded(v, buffer) }
    };
}
macro_rules! freq_ops {
    ($T:ty, $S:ty) => {
        pub fn multiply_frequency_response_real(v: &mut V, f: &dyn RealFrequencyResponse<$T>, ratio: $T) { FrequencyMultiplication::<$S, $T, &dyn RealFrequencyResponse<$T>>::multiply_frequency_response(v, f, ratio) }
    };
}
macro_rules! complex_freq_ops {
    ($T:ty, $S:ty) => {
        pub fn mirror(v: &mut V, buffer: &mut B) { FrequencyDomainOperations::<$S, $T>::mirror(v, buffer) }
        pub fn fft_shift(v: &mut V) { FrequencyDomainOperations::<$S, $T>::fft_shift(v) }
        pub fn ifft_shift(v: &mut V) { FrequencyDomainOperations::<$S, $T>::ifft_shift(v) }
        pub fn multiply_frequency_response_complex(v: &mut V, f: &dyn ComplexFrequencyResponse<$T>, ratio: $T) { FrequencyMultiplication::<$S, $T, &dyn ComplexFrequencyResponse<$T>>::multiply_frequency_response(v, f, ratio) }
        pub fn plain_ifft(v: V, buffer: &mut B) -> TimeR { FrequencyToTimeDomainOperations::<$S, $T>::plain_ifft(v, buffer) }
        pub fn ifft(v: V, buffer: &mut B) -> TimeR { FrequencyToTimeDomainOperations::<$S, $T>::ifft(v, buffer) }
        pub fn windowed_ifft(v: V, buffer: &mut B, w: &dyn WindowFunction<$T>) -> TimeR { FrequencyToTimeDomainOperations::<$S, $T>::windowed_ifft(v, buffer, w) }
        pub fn plain_sifft(v: V, buffer: &mut B) -> TransRes<RealTimeR> { SymmetricFrequencyToTimeDomainOperations::<$S, $T>::plain_sifft(v, buffer) }
        pub fn sifft(v: V, buffer: &mut B) -> TransRes<RealTimeR> { SymmetricFrequencyToTimeDomainOperations::<$S, $T>::sifft(v, buffer) }
        pub fn windowed_sifft(v: V, buffer: &mut B, w: &dyn WindowFunction<$T>) -> TransRes<RealTimeR> { SymmetricFrequencyToTimeDomainOperations::<$S, $T>::windowed_sifft(v, buffer, w) }
        pub type TimeR = <V as ToTimeResult>::TimeResult;
        pub type RealTimeR = <V as ToRealTimeResult>::RealTimeResult;
    };
}
pub trait FreqD { type D: Domain; }
impl FreqD for GenDspVec<Vec<f64>, f64> { type D = meta::TimeOrFreq; }
impl FreqD for GenDspVec<Vec<f32>, f32> { type D = meta::TimeOrFreq; }
impl FreqD for ComplexFreqVec<Vec<f64>, f64> { type D = meta::Freq; }

macro_rules! prelude {
    ($V:ty, $R:ty, $N:ty, $D:ty, $T:ty) => {
        use super::*;
        pub type V = $V;
        pub type RealA = $R;
        pub type N = $N;
        pub type D = $D;
        pub type B = SingleBuffer<$T>;
        pub type GenV = GenDspVec<Vec<$T>, $T>;
    };
}
macro_rules! gen_all {
    ($T:ty) => {
        prelude!(GenDspVec<Vec<$T>, $T>, GenDspVec<Vec<$T>, $T>, meta::RealOrComplex, meta::TimeOrFreq, $T);
        common!($T, Vec<$T>);
        real_ops!($T, Vec<$T>);
        complex_ops!($T, Vec<$T>);
        time_ops!($T, Vec<$T>);
        real_time_ops!($T, Vec<$T>);
        complex_time_ops!($T, Vec<$T>);
        freq_ops!($T, Vec<$T>);
        complex_freq_ops!($T, Vec<$T>);
        correlate_ops!($T, Vec<$T>, V);
        pub fn is_erroneous(v: &V) -> bool { v.is_erroneous() }
        pub fn rededicate_rt(v: V) -> RealTimeVec<Vec<$T>, $T> { RededicateToOps::<RealTimeVec<Vec<$T>, $T>>::rededicate(v) }
        pub fn rededicate_ct(v: V) -> ComplexTimeVec<Vec<$T>, $T> { RededicateToOps::<ComplexTimeVec<Vec<$T>, $T>>::rededicate(v) }
        pub fn rededicate_rf(v: V) -> RealFreqVec<Vec<$T>, $T> { RededicateToOps::<RealFreqVec<Vec<$T>, $T>>::rededicate(v) }
        pub fn rededicate_cf(v: V) -> ComplexFreqVec<Vec<$T>, $T> { RededicateToOps::<ComplexFreqVec<Vec<$T>, $T>>::rededicate(v) }
    };
}

pub mod gen64 {
    gen_all!(f64);
    prec64_real!(f64);
    prec64_complex!(f64);
}
pub mod gen32 {
    gen_all!(f32);
    prec64_real!(f32);
    prec64_complex!(f32);
}
pub mod rt64 {
    prelude!(RealTimeVec<Vec<f64>, f64>, RealTimeVec<Vec<f64>, f64>, meta::Real, meta::Time, f64);
    common!(f64, Vec<f64>);
    real_ops!(f64, Vec<f64>);
    prec64_real!(f64);
    time_ops!(f64, Vec<f64>);
    real_time_ops!(f64, Vec<f64>);
}
pub mod ct64 {
    prelude!(ComplexTimeVec<Vec<f64>, f64>, RealTimeVec<Vec<f64>, f64>, meta::Complex, meta::Time, f64);
    common!(f64, Vec<f64>);
    complex_ops!(f64, Vec<f64>);
    prec64_complex!(f64);
    time_ops!(f64, Vec<f64>);
    complex_time_ops!(f64, Vec<f64>);
    correlate_ops!(f64, Vec<f64>, ComplexFreqVec<Vec<f64>, f64>);
}
pub mod rf64 {
    prelude!(RealFreqVec<Vec<f64>, f64>, RealFreqVec<Vec<f64>, f64>, meta::Real, meta::Freq, f64);
    common!(f64, Vec<f64>);
    real_ops!(f64, Vec<f64>);
    prec64_real!(f64);
    freq_ops!(f64, Vec<f64>);
}
pub mod cf64 {
    prelude!(ComplexFreqVec<Vec<f64>, f64>, RealFreqVec<Vec<f64>, f64>, meta::Complex, meta::Freq, f64);
    common!(f64, Vec<f64>);
    complex_ops!(f64, Vec<f64>);
    prec64_complex!(f64);
    freq_ops!(f64, Vec<f64>);
    complex_freq_ops!(f64, Vec<f64>);
}
pub fn ty_gen() -> GenDspVec<Vec<f64>, f64> { loop {} }
pub fn ty_rt() -> RealTimeVec<Vec<f64>, f64> { loop {} }
pub fn ty_ct() -> ComplexTimeVec<Vec<f64>, f64> { loop {} }
pub fn ty_rf() -> RealFreqVec<Vec<f64>, f64> { loop {} }
pub fn ty_cf() -> ComplexFreqVec<Vec<f64>, f64> { loop {} }
