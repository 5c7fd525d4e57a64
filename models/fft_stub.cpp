// Stand-ins for parts a harness does not exercise: FFT planning and initial-condition generation.
#include "fft/fftCode.h"
#include "gen/genConf.h"
#include "scalar/scalarField.h"
#define W __attribute__((weak))
namespace AxionFFT {
W void initFFT(FieldPrecision) {}
W void initPlan(Scalar *, FFTtype, FFTdir, std::string, size_t) {}
W void removePlan(std::string) {}
W void closeFFT() {}
W void FFTplan::run(FFTdir) { __builtin_trap(); }
W double FFTplan::GFlops(FFTdir) { return 0; }
W FFTplan &fetchPlan(std::string) { __builtin_trap(); }
}
W void genConf(Cosmos *, Scalar *) { __builtin_trap(); }
