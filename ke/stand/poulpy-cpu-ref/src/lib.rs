pub struct FFT64Ref;
