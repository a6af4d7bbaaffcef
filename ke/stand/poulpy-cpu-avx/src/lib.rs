pub struct FFT64Avx;
