// Declarations of the external ABSCAB library; the harness provides bodies.
#pragma once
namespace abscab {
constexpr double MU_0 = 1.25663706212e-6;
void magneticFieldCircularFilament(const double* center, const double* normal, double radius, double current, int nEval, const double* evalPos, double* field, int numProcessors = 1);
void magneticFieldPolygonFilament(int nVert, const double* vertices, double current, int nEval, const double* evalPos, double* field, int numProcessors = 1);
void vectorPotentialCircularFilament(const double* center, const double* normal, double radius, double current, int nEval, const double* evalPos, double* a, int numProcessors = 1);
void vectorPotentialPolygonFilament(int nVert, const double* vertices, double current, int nEval, const double* evalPos, double* a, int numProcessors = 1);
}
