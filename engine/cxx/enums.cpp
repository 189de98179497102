// values of the enumerators used to name template instantiations, read from /repo's headers on every run
#include "Cell.h"
#include "BinType.h"
#include "Metric.h"
namespace verif {
int e_Log() { return Log; } int e_Linear() { return Linear; } int e_TwoD() { return TwoD; }
int e_LogRUV() { return LogRUV; } int e_LogSAS() { return LogSAS; } int e_LogMultipole() { return LogMultipole; }
int e_Euclidean() { return Euclidean; } int e_Rperp() { return Rperp; } int e_Rlens() { return Rlens; }
int e_Arc() { return Arc; } int e_OldRperp() { return OldRperp; } int e_Periodic() { return Periodic; }
int e_Flat() { return Flat; } int e_Sphere() { return Sphere; } int e_ThreeD() { return ThreeD; }
int e_NData() { return NData; } int e_KData() { return KData; } int e_ZData() { return ZData; } int e_VData() { return VData; }
int e_GData() { return GData; } int e_TData() { return TData; } int e_QData() { return QData; }
}
