// property: C35
// sources: core/lib/GNSSCore/GlobalTropModel.cpp core/lib/GNSSCore/TropModel.cpp core/lib/GNSSCore/WxObsMap.cpp core/lib/GNSSCore/Position.cpp core/lib/GNSSCore/Xvt.cpp core/lib/Math/Triple.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/TimeHandling/MJD.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp
// opt: timeout=60 feas_ms=300 nomerge=1
// noinline: _ZNK5gpstk8Position17elevationGeodeticERKS0_$
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// The global pressure, temperature and mapping functions (GPT/GMF, Boehm et al. 2006 and 2007)
#include "vp.h"
#include <cmath>
#include <map>
#include <string>
#include <sstream>
#include <cstring>
#include <list>
#include <vector>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <algorithm>
#include <limits>
#include <complex>
#define private public
#define protected public
#include "GlobalTropModel.hpp"
#undef private
#undef protected
#include "MJD.hpp"
#include "GNSSconstants.hpp"
using namespace gpstk;
// coefficients of the published model
static const double g_ADryMean[55] = {
   +1.2517e+02, +8.503e-01, +6.936e-02, -6.760e+00, +1.771e-01, +1.130e-02, +5.963e-01, +1.808e-02, +2.801e-03,
   -1.414e-03, -1.212e+00, +9.300e-02, +3.683e-03, +1.095e-03, +4.671e-05, +3.959e-01, -3.867e-02, +5.413e-03,
   -5.289e-04, +3.229e-04, +2.067e-05, +3.000e-01, +2.031e-02, +5.900e-03, +4.573e-04, -7.619e-05, +2.327e-06,
   +3.845e-06, +1.182e-01, +1.158e-02, +5.445e-03, +6.219e-05, +4.204e-06, -2.093e-06, +1.540e-07, -4.280e-08,
   -4.751e-01, -3.490e-02, +1.758e-03, +4.019e-04, -2.799e-06, -1.287e-06, +5.468e-07, +7.580e-08, -6.300e-09,
   -1.160e-01, +8.301e-03, +8.771e-04, +9.955e-05, -1.718e-06, -2.012e-06, +1.170e-08, +1.790e-08, -1.300e-09,
   +1.000e-10};
static const double g_BDryMean[55] = {
   +0.000e+00, +0.000e+00, +3.249e-02, +0.000e+00, +3.324e-02, +1.850e-02, +0.000e+00, -1.115e-01, +2.519e-02,
   +4.923e-03, +0.000e+00, +2.737e-02, +1.595e-02, -7.332e-04, +1.933e-04, +0.000e+00, -4.796e-02, +6.381e-03,
   -1.599e-04, -3.685e-04, +1.815e-05, +0.000e+00, +7.033e-02, +2.426e-03, -1.111e-03, -1.357e-04, -7.828e-06,
   +2.547e-06, +0.000e+00, +5.779e-03, +3.133e-03, -5.312e-04, -2.028e-05, +2.323e-07, -9.100e-08, -1.650e-08,
   +0.000e+00, +3.688e-02, -8.638e-04, -8.514e-05, -2.828e-05, +5.403e-07, +4.390e-07, +1.350e-08, +1.800e-09,
   +0.000e+00, -2.736e-02, -2.977e-04, +8.113e-05, +2.329e-07, +8.451e-07, +4.490e-08, -8.100e-09, -1.500e-09,
   +2.000e-10};
static const double g_ADryAmp[55] = {
   -2.738e-01, -2.837e+00, +1.298e-02, -3.588e-01, +2.413e-02, +3.427e-02, -7.624e-01, +7.272e-02, +2.160e-02,
   -3.385e-03, +4.424e-01, +3.722e-02, +2.195e-02, -1.503e-03, +2.426e-04, +3.013e-01, +5.762e-02, +1.019e-02,
   -4.476e-04, +6.790e-05, +3.227e-05, +3.123e-01, -3.535e-02, +4.840e-03, +3.025e-06, -4.363e-05, +2.854e-07,
   -1.286e-06, -6.725e-01, -3.730e-02, +8.964e-04, +1.399e-04, -3.990e-06, +7.431e-06, -2.796e-07, -1.601e-07,
   +4.068e-02, -1.352e-02, +7.282e-04, +9.594e-05, +2.070e-06, -9.620e-08, -2.742e-07, -6.370e-08, -6.300e-09,
   +8.625e-02, -5.971e-03, +4.705e-04, +2.335e-05, +4.226e-06, +2.475e-07, -8.850e-08, -3.600e-08, -2.900e-09,
   +0.000e+00};
static const double g_BDryAmp[55] = {
   +0.000e+00, +0.000e+00, -1.136e-01, +0.000e+00, -1.868e-01, -1.399e-02, +0.000e+00, -1.043e-01, +1.175e-02,
   -2.240e-03, +0.000e+00, -3.222e-02, +1.333e-02, -2.647e-03, -2.316e-05, +0.000e+00, +5.339e-02, +1.107e-02,
   -3.116e-03, -1.079e-04, -1.299e-05, +0.000e+00, +4.861e-03, +8.891e-03, -6.448e-04, -1.279e-05, +6.358e-06,
   -1.417e-07, +0.000e+00, +3.041e-02, +1.150e-03, -8.743e-04, -2.781e-05, +6.367e-07, -1.140e-08, -4.200e-08,
   +0.000e+00, -2.982e-02, -3.000e-03, +1.394e-05, -3.290e-05, -1.705e-07, +7.440e-08, +2.720e-08, -6.600e-09,
   +0.000e+00, +1.236e-02, -9.981e-04, -3.792e-05, -1.355e-05, +1.162e-06, -1.789e-07, +1.470e-08, -2.400e-09,
   -4.000e-10};
static const double g_AWetMean[55] = {
   +5.640e+01, +1.555e+00, -1.011e+00, -3.975e+00, +3.171e-02, +1.065e-01, +6.175e-01, +1.376e-01, +4.229e-02,
   +3.028e-03, +1.688e+00, -1.692e-01, +5.478e-02, +2.473e-02, +6.059e-04, +2.278e+00, +6.614e-03, -3.505e-04,
   -6.697e-03, +8.402e-04, +7.033e-04, -3.236e+00, +2.184e-01, -4.611e-02, -1.613e-02, -1.604e-03, +5.420e-05,
   +7.922e-05, -2.711e-01, -4.406e-01, -3.376e-02, -2.801e-03, -4.090e-04, -2.056e-05, +6.894e-06, +2.317e-06,
   +1.941e+00, -2.562e-01, +1.598e-02, +5.449e-03, +3.544e-04, +1.148e-05, +7.503e-06, -5.667e-07, -3.660e-08,
   +8.683e-01, -5.931e-02, -1.864e-03, -1.277e-04, +2.029e-04, +1.269e-05, +1.629e-06, +9.660e-08, -1.015e-07,
   -5.000e-10};
static const double g_BWetMean[55] = {
   +0.000e+00, +0.000e+00, +2.592e-01, +0.000e+00, +2.974e-02, -5.471e-01, +0.000e+00, -5.926e-01, -1.030e-01,
   -1.567e-02, +0.000e+00, +1.710e-01, +9.025e-02, +2.689e-02, +2.243e-03, +0.000e+00, +3.439e-01, +2.402e-02,
   +5.410e-03, +1.601e-03, +9.669e-05, +0.000e+00, +9.502e-02, -3.063e-02, -1.055e-03, -1.067e-04, -1.130e-04,
   +2.124e-05, +0.000e+00, -3.129e-01, +8.463e-03, +2.253e-04, +7.413e-05, -9.376e-05, -1.606e-06, +2.060e-06,
   +0.000e+00, +2.739e-01, +1.167e-03, -2.246e-05, -1.287e-04, -2.438e-05, -7.561e-07, +1.158e-06, +4.950e-08,
   +0.000e+00, -1.344e-01, +5.342e-03, +3.775e-04, -6.756e-05, -1.686e-06, -1.184e-06, +2.768e-07, +2.730e-08,
   +5.700e-09};
static const double g_AWetAmp[55] = {
   +1.023e-01, -2.695e+00, +3.417e-01, -1.405e-01, +3.175e-01, +2.116e-01, +3.536e+00, -1.505e-01, -1.660e-02,
   +2.967e-02, +3.819e-01, -1.695e-01, -7.444e-02, +7.409e-03, -6.262e-03, -1.836e+00, -1.759e-02, -6.256e-02,
   -2.371e-03, +7.947e-04, +1.501e-04, -8.603e-01, -1.360e-01, -3.629e-02, -3.706e-03, -2.976e-04, +1.857e-05,
   +3.021e-05, +2.248e+00, -1.178e-01, +1.255e-02, +1.134e-03, -2.161e-04, -5.817e-06, +8.836e-07, -1.769e-07,
   +7.313e-01, -1.188e-01, +1.145e-02, +1.011e-03, +1.083e-04, +2.570e-06, -2.140e-06, -5.710e-08, +2.000e-08,
   -1.632e+00, -6.948e-03, -3.893e-03, +8.592e-04, +7.577e-05, +4.539e-06, -3.852e-07, -2.213e-07, -1.370e-08,
   +5.800e-09};
static const double g_BWetAmp[55] = {
   +0.000e+00, +0.000e+00, -8.865e-02, +0.000e+00, -4.309e-01, +6.340e-02, +0.000e+00, +1.162e-01, +6.176e-02,
   -4.234e-03, +0.000e+00, +2.530e-01, +4.017e-02, -6.204e-03, +4.977e-03, +0.000e+00, -1.737e-01, -5.638e-03,
   +1.488e-04, +4.857e-04, -1.809e-04, +0.000e+00, -1.514e-01, -1.685e-02, +5.333e-03, -7.611e-05, +2.394e-05,
   +8.195e-06, +0.000e+00, +9.326e-02, -1.275e-02, -3.071e-04, +5.374e-05, -3.391e-05, -7.436e-06, +6.747e-07,
   +0.000e+00, -8.637e-02, -3.807e-03, -6.833e-04, -3.861e-05, -2.268e-05, +1.454e-06, +3.860e-07, -1.068e-07,
   +0.000e+00, -2.658e-02, -1.947e-03, +7.131e-04, -3.506e-05, +1.885e-07, +5.792e-07, +3.990e-08, +2.000e-08,
   -5.700e-09};
static const double g_Ageoid[55] = {
   -5.6195e-01, -6.0794e-02, -2.0125e-01, -6.4180e-02, -3.6997e-02, +1.0098e+01, +1.6436e+01, +1.4065e+01, +1.9881e+00,
   +6.4414e-01, -4.7482e+00, -3.2290e+00, +5.0652e-01, +3.8279e-01, -2.6646e-02, +1.7224e+00, -2.7970e-01, +6.8177e-01,
   -9.6658e-02, -1.5113e-02, +2.9206e-03, -3.4621e+00, -3.8198e-01, +3.2306e-02, +6.9915e-03, -2.3068e-03, -1.3548e-03,
   +4.7324e-06, +2.3527e+00, +1.2985e+00, +2.1232e-01, +2.2571e-02, -3.7855e-03, +2.9449e-05, -1.6265e-04, +1.1711e-07,
   +1.6732e+00, +1.9858e-01, +2.3975e-02, -9.0013e-04, -2.2475e-03, -3.3095e-05, -1.2040e-05, +2.2010e-06, -1.0083e-06,
   +8.6297e-01, +5.8231e-01, +2.0545e-02, -7.8110e-03, -1.4085e-04, -8.8459e-06, +5.7256e-06, -1.5068e-06, +4.0095e-07,
   -2.4185e-08};
static const double g_Bgeoid[55] = {
   +0.0000e+00, +0.0000e+00, -6.5993e-02, +0.0000e+00, +6.5364e-02, -5.8320e+00, +0.0000e+00, +1.6961e+00, -1.3557e+00,
   +1.2694e+00, +0.0000e+00, -2.9310e+00, +9.4805e-01, -7.6243e-02, +4.1076e-02, +0.0000e+00, -5.1808e-01, -3.4583e-01,
   -4.3632e-02, +2.2101e-03, -1.0663e-02, +0.0000e+00, +1.0927e-01, -2.9463e-01, +1.4371e-03, -1.1452e-02, -2.8156e-03,
   -3.5330e-04, +0.0000e+00, +4.4049e-01, +5.5653e-02, -2.0396e-02, -1.7312e-03, +3.5805e-05, +7.2682e-05, +2.2535e-06,
   +0.0000e+00, +1.9502e-02, +2.7919e-02, -8.1812e-03, +4.4540e-04, +8.8663e-05, +5.5596e-05, +2.4826e-06, +1.0279e-06,
   +0.0000e+00, +6.0529e-02, -3.5824e-02, -5.1367e-03, +3.0119e-05, -2.9911e-05, +1.9844e-05, -1.2349e-06, -7.6756e-09,
   +5.0100e-08};
static const double g_APressMean[55] = {
   +1.0108e+03, +8.4886e+00, +1.4799e+00, -1.3897e+01, +3.7516e-03, -1.4936e-01, +1.2232e+01, -7.6615e-01, -6.7699e-02,
   +8.1002e-03, -1.5874e+01, +3.6614e-01, -6.7807e-02, -3.6309e-03, +5.9966e-04, +4.8163e+00, -3.7363e-01, -7.2071e-02,
   +1.9998e-03, -6.2385e-04, -3.7916e-04, +4.7609e+00, -3.9534e-01, +8.6667e-03, +1.1569e-02, +1.1441e-03, -1.4193e-04,
   -8.5723e-05, +6.5008e-01, -5.0889e-01, -1.5754e-02, -2.8305e-03, +5.7458e-04, +3.2577e-05, -9.6052e-06, -2.7974e-06,
   +1.3530e+00, -2.7271e-01, -3.0276e-04, +3.6286e-03, -2.0398e-04, +1.5846e-05, -7.7787e-06, +1.1210e-06, +9.9020e-08,
   +5.5046e-01, -2.7312e-01, +3.2532e-03, -2.4277e-03, +1.1596e-04, +2.6421e-07, -1.3263e-06, +2.7322e-07, +1.4058e-07,
   +4.9414e-09};
static const double g_BPressMean[55] = {
   +0.0000e+00, +0.0000e+00, -1.2878e+00, +0.0000e+00, +7.0444e-01, +3.3222e-01, +0.0000e+00, -2.9636e-01, +7.2248e-03,
   +7.9655e-03, +0.0000e+00, +1.0854e+00, +1.1145e-02, -3.6513e-02, +3.1527e-03, +0.0000e+00, -4.8434e-01, +5.2023e-02,
   -1.3091e-02, +1.8515e-03, +1.5422e-04, +0.0000e+00, +6.8298e-01, +2.5261e-03, -9.9703e-04, -1.0829e-03, +1.7688e-04,
   -3.1418e-05, +0.0000e+00, -3.7018e-01, +4.3234e-02, +7.2559e-03, +3.1516e-04, +2.0024e-05, -8.0581e-06, -2.3653e-06,
   +0.0000e+00, +1.0298e-01, -1.5086e-02, +5.6186e-03, +3.2613e-05, +4.0567e-05, -1.3925e-06, -3.6219e-07, -2.0176e-08,
   +0.0000e+00, -1.8364e-01, +1.8508e-02, +7.5016e-04, -9.6139e-05, -3.1995e-06, +1.3868e-07, -1.9486e-07, +3.0165e-10,
   -6.4376e-10};
static const double g_APressAmp[55] = {
   -1.0444e-01, +1.6618e-01, -6.3974e-02, +1.0922e+00, +5.7472e-01, -3.0277e-01, -3.5087e+00, +7.1264e-03, -1.4030e-01,
   +3.7050e-02, +4.0208e-01, -3.0431e-01, -1.3292e-01, +4.6746e-03, -1.5902e-04, +2.8624e+00, -3.9315e-01, -6.4371e-02,
   +1.6444e-02, -2.3403e-03, +4.2127e-05, +1.9945e+00, -6.0907e-01, -3.5386e-02, -1.0910e-03, -1.2799e-04, +4.0970e-05,
   +2.2131e-05, -5.3292e-01, -2.9765e-01, -3.2877e-02, +1.7691e-03, +5.9692e-05, +3.1725e-05, +2.0741e-05, -3.7622e-07,
   +2.6372e+00, -3.1165e-01, +1.6439e-02, +2.1633e-04, +1.7485e-04, +2.1587e-05, +6.1064e-06, -1.3755e-08, -7.8748e-08,
   -5.9152e-01, -1.7676e-01, +8.1807e-03, +1.0445e-03, +2.3432e-04, +9.3421e-06, +2.8104e-06, -1.5788e-07, -3.0648e-08,
   +2.6421e-10};
static const double g_BPressAmp[55] = {
   +0.0000e+00, +0.0000e+00, +9.3340e-01, +0.0000e+00, +8.2346e-01, +2.2082e-01, +0.0000e+00, +9.6177e-01, -1.5650e-02,
   +1.2708e-03, +0.0000e+00, -3.9913e-01, +2.8020e-02, +2.8334e-02, +8.5980e-04, +0.0000e+00, +3.0545e-01, -2.1691e-02,
   +6.4067e-04, -3.6528e-05, -1.1166e-04, +0.0000e+00, -7.6974e-02, -1.8986e-02, +5.6896e-03, -2.4159e-04, -2.3033e-04,
   -9.6783e-06, +0.0000e+00, -1.0218e-01, -1.3916e-02, -4.1025e-03, -5.1340e-05, -7.0114e-05, -3.3152e-07, +1.6901e-06,
   +0.0000e+00, -1.2422e-02, +2.5072e-03, +1.1205e-03, -1.3034e-04, -2.3971e-05, -2.6622e-06, +5.7852e-07, +4.5847e-08,
   +0.0000e+00, +4.4777e-02, -3.0421e-03, +2.6062e-05, -7.2421e-05, +1.9119e-06, +3.9236e-07, +2.2390e-07, +2.9765e-09,
   -4.6452e-09};
static const double g_ATempMean[55] = {
   +1.6257e+01, +2.1224e+00, +9.2569e-01, -2.5974e+01, +1.4510e+00, +9.2468e-02, -5.3192e-01, +2.1094e-01, -6.9210e-02,
   -3.4060e-02, -4.6569e+00, +2.6385e-01, -3.6093e-02, +1.0198e-02, -1.8783e-03, +7.4983e-01, +1.1741e-01, +3.9940e-02,
   +5.1348e-03, +5.9111e-03, +8.6133e-06, +6.3057e-01, +1.5203e-01, +3.9702e-02, +4.6334e-03, +2.4406e-04, +1.5189e-04,
   +1.9581e-07, +5.4414e-01, +3.5722e-01, +5.2763e-02, +4.1147e-03, -2.7239e-04, -5.9957e-05, +1.6394e-06, -7.3045e-07,
   -2.9394e+00, +5.5579e-02, +1.8852e-02, +3.4272e-03, -2.3193e-05, -2.9349e-05, +3.6397e-07, +2.0490e-06, -6.4719e-08,
   -5.2225e-01, +2.0799e-01, +1.3477e-03, +3.1613e-04, -2.2285e-04, -1.8137e-05, -1.5177e-07, +6.1343e-07, +7.8566e-08,
   +1.0749e-09};
static const double g_BTempMean[55] = {
   +0.0000e+00, +0.0000e+00, +1.0210e+00, +0.0000e+00, +6.0194e-01, +1.2292e-01, +0.0000e+00, -4.2184e-01, +1.8230e-01,
   +4.2329e-02, +0.0000e+00, +9.3312e-02, +9.5346e-02, -1.9724e-03, +5.8776e-03, +0.0000e+00, -2.0940e-01, +3.4199e-02,
   -5.7672e-03, -2.1590e-03, +5.6815e-04, +0.0000e+00, +2.2858e-01, +1.2283e-02, -9.3679e-03, -1.4233e-03, -1.5962e-04,
   +4.0160e-05, +0.0000e+00, +3.6353e-02, -9.4263e-04, -3.6762e-03, +5.8608e-05, -2.6391e-05, +3.2095e-06, -1.1605e-06,
   +0.0000e+00, +1.6306e-01, +1.3293e-02, -1.1395e-03, +5.1097e-05, +3.3977e-05, +7.6449e-06, -1.7602e-07, -7.6558e-08,
   +0.0000e+00, -4.5415e-02, -1.8027e-02, +3.6561e-04, -1.1274e-04, +1.3047e-05, +2.0001e-06, -1.5152e-07, -2.7807e-08,
   +7.7491e-09};
static const double g_ATempAmp[55] = {
   -1.8654e+00, -9.0041e+00, -1.2974e-01, -3.6053e+00, +2.0284e-02, +2.1872e-01, -1.3015e+00, +4.0355e-01, +2.2216e-01,
   -4.0605e-03, +1.9623e+00, +4.2887e-01, +2.1437e-01, -1.0061e-02, -1.1368e-03, -6.9235e-02, +5.6758e-01, +1.1917e-01,
   -7.0765e-03, +3.0017e-04, +3.0601e-04, +1.6559e+00, +2.0722e-01, +6.0013e-02, +1.7023e-04, -9.2424e-04, +1.1269e-05,
   -6.9911e-06, -2.0886e+00, -6.7879e-02, -8.5922e-04, -1.6087e-03, -4.5549e-05, +3.3178e-05, -6.1715e-06, -1.4446e-06,
   -3.7210e-01, +1.5775e-01, -1.7827e-03, -4.4396e-04, +2.2844e-04, -1.1215e-05, -2.1120e-06, -9.6421e-07, -1.4170e-08,
   +7.8720e-01, -4.4238e-02, -1.5120e-03, -9.4119e-04, +4.0645e-06, -4.9253e-06, -1.8656e-06, -4.0736e-07, -4.9594e-08,
   +1.6134e-09};
static const double g_BTempAmp[55] = {
   +0.0000e+00, +0.0000e+00, -8.9895e-01, +0.0000e+00, -1.0790e+00, -1.2699e-01, +0.0000e+00, -5.9033e-01, +3.4865e-02,
   -3.2614e-02, +0.0000e+00, -2.4310e-02, +1.5607e-02, -2.9833e-02, -5.9048e-03, +0.0000e+00, +2.8383e-01, +4.0509e-02,
   -1.8834e-02, -1.2654e-03, -1.3794e-04, +0.0000e+00, +1.3306e-01, +3.4960e-02, -3.6799e-03, -3.5626e-04, +1.4814e-04,
   +3.7932e-06, +0.0000e+00, +2.0801e-01, +6.5640e-03, -3.4893e-03, -2.7395e-04, +7.4296e-05, -7.9927e-06, -1.0277e-06,
   +0.0000e+00, +3.6515e-02, -7.4319e-03, -6.2873e-04, -8.2461e-05, +3.1095e-05, -5.3860e-07, -1.2055e-07, -1.1517e-07,
   +0.0000e+00, +3.1404e-02, +1.5580e-02, -1.1428e-03, +3.3529e-05, +1.0387e-05, -1.9378e-06, -2.7327e-07, +7.5833e-09,
   -9.2323e-09};

template <class F> static bool no_model(F f)
{
   try { f(); }
   catch (InvalidTropModel &) { return true; }
   return false;
}
template <class F> static bool refused(F f)
{
   try { f(); }
   catch (InvalidParameter &) { return true; }
   return false;
}
struct Used
{
   unsigned char b[sizeof(GlobalTropModel)] __attribute__((aligned(16)));
   Used() { std::memset(b, 1, sizeof b); }
};
static bool silent(const GlobalTropModel &m)
{
   double e = vp_f64("elevation", -90, 90);
   return !m.valid && no_model([&] { m.correction(e); }) && no_model([&] { m.dry_zenith_delay(); }) && no_model([&] { m.wet_zenith_delay(); })
      && no_model([&] { m.dry_mapping_function(e); }) && no_model([&] { m.wet_mapping_function(e); });
}
extern "C" void vpproof__C35__global_unset__int_real()
{
   Used u;
   GlobalTropModel *m = new (u.b) GlobalTropModel();
   vp_ensure(silent(*m), "a model without parameters is not valid and computes nothing");
   vp_ensure(m->humid >= 0 && m->humid <= 100, "the humidity is defined from the start");
}
// the four parameters in any rotation, any value of each: valid exactly after the last
static void give(GlobalTropModel &m, int w, double h, double lat, double lon, int doy)
{
   if (w == 0) m.setReceiverHeight(h);
   else if (w == 1) m.setReceiverLatitude(lat);
   else if (w == 2) m.setReceiverLongitude(lon);
   else m.setDayOfYear(doy);
}
static void order(int first)
{
   Used u;
   GlobalTropModel *m = new (u.b) GlobalTropModel();
   double h = vp_f64("height", -1000, 5000), lat = vp_f64("latitude", -90, 90), lon = vp_f64("longitude", -180, 360);
   int doy = (int)vp_i64("day", 1, 366);
   for (int i = 0; i < 3; i++)
   {
      give(*m, (first + i) % 4, h, lat, lon, doy);
      vp_ensure(!m->valid, "not valid before the last parameter");
   }
   bool high = no_model([&] { give(*m, (first + 3) % 4, h, lat, lon, doy); });
   vp_ensure(m->valid == !high && m->validCoeff == !high, "valid when all are given, whatever their values, unless refused");
   vp_ensure(m->height == h && m->latitude == lat && m->longitude == lon, "the parameters are those given");
}
extern "C" void vpproof__C35__global_order_0__int_real() { order(0); }
extern "C" void vpproof__C35__global_order_1__int_real() { order(1); }
extern "C" void vpproof__C35__global_order_2__int_real() { order(2); }
extern "C" void vpproof__C35__global_order_3__int_real() { order(3); }
extern "C" void vpproof__C35__global_constructed__int_real()
{
   Used u;
   double h = vp_f64("height", -1000, 5000), lat = vp_f64("latitude", -90, 90), lon = vp_f64("longitude", -180, 360), mjd = vp_f64("mjd", 40000, 70000);
   GlobalTropModel *m = 0;
   if (no_model([&] { m = new (u.b) GlobalTropModel(h, lat, lon, mjd); })) return;
   vp_ensure(m->valid && m->height == h && m->latitude == lat && m->longitude == lon, "constructed from its parameters");
   vp_ensure(vp_eqt(m->dayfactor, TWO_PI * (mjd - 44266.0) / 365.25, 1e4), "angle of the year, counted from January 28");
   vp_ensure(m->humid >= 0 && m->humid <= 100, "the humidity is defined");
}
// giving the same parameters again keeps the model valid
extern "C" void vpproof__C35__global_again__int_real()
{
   GlobalTropModel m;
   double lat = vp_f64("latitude", -90, 90), lon = vp_f64("longitude", 0, 359), h = vp_f64("height", -1000, 5000);
   Position R(lat, lon, h, Position::Geodetic);
   CommonTime t;
   t.set(2457023L, 43200L, 0.0, TimeSystem::GPS);
   bool high = no_model([&] { m.setParameters(t, R); });
   vp_ensure(m.valid == !high, "valid after all parameters");
   if (high) return;
   bool again = no_model([&] { m.setParameters(t, R); });
   vp_ensure(m.valid == !again, "valid after the same parameters again");
   vp_ensure(m.height == R.getHeight() && m.latitude == R.getGeodeticLatitude() && m.longitude == R.getLongitude(), "height, latitude and longitude of the position");
}
extern "C" void vpproof__C35__global_day__int_real()
{
   GlobalTropModel m;
   int doy = (int)vp_i64("day", 1, 366);
   m.setDayOfYear(doy);
   vp_ensure(vp_eqt(m.dayfactor, TWO_PI * (doy - 28.0) / 365.25, 100), "a day of the year counts from January 28, as a date does");
}
extern "C" void vpproof__C35__global_date__int_real()
{
   GlobalTropModel m, n;
   int doy = (int)vp_i64("day", 1, 366);
   m.setTime(44238.0 + doy);
   vp_ensure(vp_eqt(m.dayfactor, TWO_PI * (doy - 28.0) / 365.25, 100) && m.validDay, "a date counts from January 28");
   n.setDayOfYear(doy);
   vp_ensure(vp_eqt(n.dayfactor, TWO_PI * (doy - 28.0) / 365.25, 100) || vp_eqt(n.dayfactor, TWO_PI * doy / 365.25, 100), "a day of the year counts from January 28, or from January 0 as known");
   vp_ensure(n.validDay, "the day is given");
}
extern "C" void vpproof__C35__global_humidity__int_real()
{
   GlobalTropModel m;
   double H = vp_f64("humidity", -50, 150);
   bool bad = refused([&] { m.setWeather(10.0, 1000.0, H); });
   vp_ensure(bad == !(H >= 0 && H <= 100), "an impossible humidity is refused");
   vp_ensure(m.humid == (bad ? 50.0 : H), "the humidity is the one given");
   vp_ensure(!m.valid, "weather alone does not make the model valid");
}
// a model in any valid state
static void arb(GlobalTropModel &m, const char *an, const char *bn)
{
   m.height = vp_f64("height", -1000, 9000);
   m.latitude = vp_f64("latitude", -90, 90);
   m.longitude = vp_f64("longitude", -180, 360);
   m.dayfactor = vp_f64("dayfactor", -100, 1000);
   m.temp = vp_f64("temperature", -80, 60);
   m.press = vp_f64("pressure", 300, 1100);
   m.humid = vp_f64("humidity", 0, 100);
   for (int i = 0; i < 55; i++) { m.aP[i] = vp_f64(an, -1, 1); m.bP[i] = vp_f64(bn, -1, 1); }
   m.validHeight = m.validLat = m.validLon = m.validDay = m.validCoeff = m.valid = true;
}
static double sum(const double *A, const double *B, const GlobalTropModel &m)
{
   double s = 0.0;
   for (int i = 0; i < 55; i++) s += A[i] * m.aP[i] + B[i] * m.bP[i];
   return s;
}
static double sum5(const double *A, const double *B, const GlobalTropModel &m)
{
   double s = 0.0;
   for (int i = 0; i < 55; i++) s += (A[i] * m.aP[i] + B[i] * m.bP[i]) * 1.0e-5;
   return s;
}
static double fraction(double a, double b, double c, double s) { return (1.0 + a / (1.0 + b / (1.0 + c))) / (s + a / (s + b / (s + c))); }
extern "C" void vpproof__C35__global_weather__int_real()
{
   GlobalTropModel m;
   arb(m, "a", "b");
   double P = 0, T = 0, U = 0;
   bool high = no_model([&] { m.getGPT(P, T, U); });
   double u = sum(g_Ageoid, g_Bgeoid, m), o = m.height - u;
   vp_ensure(high == (o > 44247.), "refused beyond the height of the model");
   vp_ensure(vp_eqt(U, u, 100), "undulation of the geoid");
   if (high) return;
   double p = sum(g_APressMean, g_BPressMean, m) + sum(g_APressAmp, g_BPressAmp, m) * std::cos(m.dayfactor);
   double t = sum(g_ATempMean, g_BTempMean, m) + sum(g_ATempAmp, g_BTempAmp, m) * std::cos(m.dayfactor);
   vp_ensure(vp_eqt(P, p * std::pow(1.0 - 2.26e-5 * o, 5.225), 1e4), "pressure of GPT at the orthometric height");
   vp_ensure(vp_eqt(T, t - 6.5e-3 * o, 1e3), "temperature of GPT at the orthometric height");
}
extern "C" void vpproof__C35__global_dry__int_real()
{
   GlobalTropModel m;
   arb(m, "a", "b");
   double e = vp_f64("elevation", -90, 90), f = m.dry_mapping_function(e);
   if (e < 3.0) { vp_ensure(f == 0.0, "no mapping below three degrees"); return; }
   bool south = m.latitude < 0;
   double c = 0.062 + ((std::cos(m.dayfactor + (south ? PI : 0.0)) + 1.0) * (south ? 0.007 : 0.005) / 2.0 + (south ? 0.002 : 0.001)) * (1.0 - std::cos(m.latitude * DEG_TO_RAD));
   double a = sum5(g_ADryMean, g_BDryMean, m) + sum5(g_ADryAmp, g_BDryAmp, m) * std::cos(m.dayfactor), s = std::sin(e * DEG_TO_RAD);
   double w = fraction(a, 0.0029, c, s);
   w += (1.0 / s - fraction(2.53e-5, 5.49e-3, 1.14e-3, s)) * (m.height / 1000.0);
   vp_ensure(vp_eqt(f, w, 100), "hydrostatic global mapping function");
}
extern "C" void vpproof__C35__global_wet__int_real()
{
   GlobalTropModel m;
   arb(m, "a", "b");
   double e = vp_f64("elevation", -90, 90), f = m.wet_mapping_function(e);
   if (e < 3.0) { vp_ensure(f == 0.0, "no mapping below three degrees"); return; }
   double a = sum5(g_AWetMean, g_BWetMean, m) + sum5(g_AWetAmp, g_BWetAmp, m) * std::cos(m.dayfactor);
   vp_ensure(vp_eqt(f, fraction(a, 0.00146, 0.04391, std::sin(e * DEG_TO_RAD)), 100), "wet global mapping function");
}
extern "C" void vpproof__C35__global_zenith__int_real()
{
   GlobalTropModel m;
   arb(m, "a", "b");
   vp_ensure(vp_eqt(m.dry_zenith_delay(), 0.0022768 * m.press / (1 - 0.00266 * std::cos(2 * m.latitude * DEG_TO_RAD) - 0.00028 * m.height / 1000.), 10), "hydrostatic zenith delay of Saastamoinen");
   double T = m.temp + 273.15;
   vp_ensure(vp_eqt(m.wet_zenith_delay(), 0.0122 + 0.00943 * (0.01 * m.humid * std::exp(-37.2465 + (0.213166 - 0.000256908 * T) * T)), 10), "wet zenith delay");
}
extern "C" void vpproof__C35__global_composed__int_real()
{
   GlobalTropModel m;
   arb(m, "a", "b");
   double e = vp_f64("elevation", -90, 90), c = m.correction(e);
   if (e < 3.0) { vp_ensure(c == 0.0, "no delay below three degrees"); return; }
   vp_ensure(vp_eqt(c, m.dry_zenith_delay() * m.dry_mapping_function(e) + m.wet_zenith_delay() * m.wet_mapping_function(e), 1e4), "each zenith delay is mapped to the elevation");
}
// spherical harmonics of the place
static void harmonics(int degree)
{
   GlobalTropModel m;
   m.latitude = vp_f64("latitude", -89, 89);
   m.longitude = vp_f64("longitude", -180, 360);
   m.validLat = m.validLon = true;
   m.updateGTMCoeff();
   double t = std::sin(m.latitude * DEG_TO_RAD), F[19];
   F[0] = 1;
   for (int i = 1; i < 19; i++) F[i] = F[i - 1] * i;
   int n = degree * (degree + 1) / 2;
   for (int j = 0; j <= degree; j++)
   {
      double s = 0.0;
      int sign = 1;
      for (int k = 0; k <= (degree - j) / 2; k++, sign = -sign)
         s += sign * (((F[2 * degree - 2 * k] / F[k]) / F[degree - k]) / F[degree - j - 2 * k]) * std::pow(t, degree - j - 2 * k);
      double p = 1.0 / std::pow(2.0, degree) * std::sqrt(std::pow(1.0 - t * t, j)) * s;
      vp_ensure(vp_eqt(m.aP[n + j], p * std::cos(j * (m.longitude * DEG_TO_RAD)), 1e6), "Legendre function times the cosine of the longitude");
      vp_ensure(vp_eqt(m.bP[n + j], p * std::sin(j * (m.longitude * DEG_TO_RAD)), 1e6), "Legendre function times the sine of the longitude");
   }
}
extern "C" void vpproof__C35__global_harmonics_0__int_real() { harmonics(0); }
extern "C" void vpproof__C35__global_harmonics_1__int_real() { harmonics(1); }
extern "C" void vpproof__C35__global_harmonics_2__int_real() { harmonics(2); }
extern "C" void vpproof__C35__global_harmonics_3__int_real() { harmonics(3); }
extern "C" void vpproof__C35__global_harmonics_4__int_real() { harmonics(4); }
extern "C" void vpproof__C35__global_harmonics_5__int_real() { harmonics(5); }
extern "C" void vpproof__C35__global_harmonics_6__int_real() { harmonics(6); }
extern "C" void vpproof__C35__global_harmonics_7__int_real() { harmonics(7); }
extern "C" void vpproof__C35__global_harmonics_8__int_real() { harmonics(8); }
extern "C" void vpproof__C35__global_harmonics_9__int_real() { harmonics(9); }
// a height beyond the model is refused, and the model is not used with the weather of another height
extern "C" void vpproof__C35__global_too_high__int_real()
{
   GlobalTropModel m;
   arb(m, "a", "b");
   double h = vp_f64("new height", 0, 200000);
   bool high = no_model([&] { m.setReceiverHeight(h); });
   if (high) vp_ensure(silent(m), "a refused height leaves no valid model");
   else vp_ensure(m.valid && m.height == h, "an accepted height is used");
}
// positions: the receiver's height, latitude and longitude are taken first
static double elevation_;
#ifdef VP_PROOF
// angle seen from a position: contract of C24, used here by name
extern "C" double vpstub___ZNK5gpstk8Position17elevationGeodeticERKS0_(const Position *, const Position *) { return elevation_; }
#endif
extern "C" void vpproof__C35__global_seen__int_real()
{
   GlobalTropModel a, b;
   double lat = vp_f64("latitude", -90, 90), lon = vp_f64("longitude", 0, 359), h = vp_f64("height", -100, 8000);
   int doy = (int)vp_i64("day", 1, 366);
   Position R(lat, lon, h, Position::Geodetic), S(26000e3 * 0.5, 26000e3 * 0.5, 26000e3 * 0.7, Position::Cartesian);
   elevation_ = vp_f64("elevation", -90, 90);
#ifndef VP_PROOF
   elevation_ = R.elevationGeodetic(S);
   if (elevation_ > 2.9 && elevation_ < 3.1) return;
#endif
   a.setDayOfYear(doy);
   double got = 0;
   bool no = no_model([&] { got = a.correction(R, S); });
   bool bad = no_model([&] {
      b.setReceiverHeight(R.getHeight());
      b.setReceiverLatitude(R.getGeodeticLatitude());
      b.setReceiverLongitude(R.getLongitude());
      b.setDayOfYear(doy); });
   vp_ensure(no == bad, "computed exactly when the place is within the model");
   if (no || bad) return;
   vp_ensure(a.height == b.height && a.latitude == b.latitude && a.longitude == b.longitude, "height, latitude and longitude of the receiver");
   vp_ensure(vp_eqt(got, b.correction(elevation_), 100), "the delay at the elevation of the satellite");
}
