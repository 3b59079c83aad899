// property: C35
// sources: core/lib/GNSSCore/TropModel.cpp core/lib/GNSSCore/SimpleTropModel.cpp core/lib/GNSSCore/GGTropModel.cpp core/lib/GNSSCore/GGHeightTropModel.cpp core/lib/GNSSCore/GCATTropModel.cpp core/lib/GNSSCore/SaasTropModel.cpp core/lib/GNSSCore/NBTropModel.cpp core/lib/GNSSCore/NeillTropModel.cpp core/lib/GNSSCore/MOPSTropModel.cpp core/lib/GNSSCore/WxObsMap.cpp core/lib/GNSSCore/Position.cpp core/lib/GNSSCore/Xvt.cpp core/lib/Math/Triple.cpp core/lib/TimeHandling/CommonTime.cpp core/lib/TimeHandling/TimeConverters.cpp core/lib/TimeHandling/YDSTime.cpp core/lib/RefTime/TimeSystem.cpp core/lib/TimeHandling/TimeTag.cpp
// opt: timeout=60 feas_ms=1500 nomerge=1 uniqidx=1
// noinline: _ZNK5gpstk8Position9elevationERKS0_$ _ZNK5gpstk8Position17elevationGeodeticERKS0_$
// opaque: emptystr _ZN5gpstk11StringUtils8asString
// Tropospheric delay models: validity, weather, mapping and composition
#include "vp.h"
#include <cmath>
#include <map>
#include <string>
#include <sstream>
#include <cstring>
#include <list>
#include <vector>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <algorithm>
#include <limits>
#include <complex>
#define private public
#define protected public
#include "SimpleTropModel.hpp"
#include "GGTropModel.hpp"
#include "GGHeightTropModel.hpp"
#include "GCATTropModel.hpp"
#include "SaasTropModel.hpp"
#include "NBTropModel.hpp"
#include "NeillTropModel.hpp"
#include "MOPSTropModel.hpp"
#undef private
#undef protected
#include "YDSTime.hpp"
#include "GNSSconstants.hpp"
#include "GPSEllipsoid.hpp"
using namespace gpstk;
template <class F> static bool no_model(F f)
{
   try { f(); }
   catch (InvalidTropModel &) { return true; }
   return false;
}
template <class F> static bool bad_weather(F f)
{
   try { f(); }
   catch (InvalidParameter &) { return true; }
   return false;
}
// storage that held something else before: every flag not written reads as set
template <class T> struct Used
{
   unsigned char b[sizeof(T)] __attribute__((aligned(16)));
   Used() { std::memset(b, 1, sizeof(T)); }
   void *at() { return b; }
   T *operator->() { return (T *)b; }
   T &operator*() { return *(T *)b; }
};
// ---------------------------------------------------------------- a model is valid only when all it needs was given
template <class M> static void unset()
{
   Used<M> u;
   M *m = new (u.at()) M();
   double e = vp_f64("elevation", -90, 90);
   vp_ensure(!m->isValid(), "a model without its parameters is not valid");
   vp_ensure(no_model([&] { m->correction(e); }), "no delay is computed without the parameters");
}
extern "C" void vpproof__C35__unset_height__int_real() { unset<GGHeightTropModel>(); }
extern "C" void vpproof__C35__unset_saas__int_real() { unset<SaasTropModel>(); }
extern "C" void vpproof__C35__unset_nb__int_real() { unset<NBTropModel>(); }
extern "C" void vpproof__C35__unset_neill__int_real() { unset<NeillTropModel>(); }
extern "C" void vpproof__C35__unset_gcat__int_real() { unset<GCATTropModel>(); }
extern "C" void vpproof__C35__unset_mops__int_real() { unset<MOPSTropModel>(); }
template <class M> static void height_only()
{
   Used<M> u;
   double h = vp_f64("height", -1000, 10000), e = vp_f64("elevation", -90, 90);
   M *m = new (u.at()) M(h);
   vp_ensure(!m->isValid() && no_model([&] { m->correction(e); }), "a height alone does not make the model valid");
   vp_ensure(no_model([&] { m->dry_zenith_delay(); }) && no_model([&] { m->dry_mapping_function(e); }), "nor gives parts of the delay");
}
extern "C" void vpproof__C35__height_only_neill__int_real() { height_only<NeillTropModel>(); }
extern "C" void vpproof__C35__height_only_mops__int_real() { height_only<MOPSTropModel>(); }
// parameters in every order: valid exactly when all were given and the day exists
template <class M> static void any_order()
{
   M m;
   int doy = (int)vp_i64("day", -1000, 1000), order = (int)vp_i64("order", 0, 5);
   double h = vp_f64("height", -1000, 10000), lat = vp_f64("latitude", -90, 90);
   static const int ORD[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
   for (int o = 0; o < 6; o++)
      if (o == order)
         for (int i = 0; i < 3; i++)
         {
            vp_ensure(!m.isValid(), "not valid before the last parameter");
            int w = ORD[o][i];
            if (w == 0) m.setReceiverHeight(h);
            else if (w == 1) m.setReceiverLatitude(lat);
            else m.setDayOfYear(doy);
         }
   vp_ensure(m.isValid() == (doy >= 1 && doy <= 366), "valid when height, latitude and a day of the year are given");
}
extern "C" void vpproof__C35__order_nb__int_real() { any_order<NBTropModel>(); }
extern "C" void vpproof__C35__order_neill__int_real() { any_order<NeillTropModel>(); }
extern "C" void vpproof__C35__order_mops__int_real() { any_order<MOPSTropModel>(); }
// ---------------------------------------------------------------- weather
struct Wx { double T, P, H; };
static Wx arb_weather()
{
   Wx w;
   w.T = vp_f64("temperature", -300, 100);
   w.P = vp_f64("pressure", -100, 2000);
   w.H = vp_f64("humidity", -50, 150);
   return w;
}
static bool possible(const Wx &w) { return w.T + 273.15 >= 0.0 && w.P >= 0.0 && w.H >= 0.0 && w.H <= 105.0; }
static double capped(double H) { return H > 100 ? 100.0 : H; }
static WxObservation observed(const Wx &w)
{
   WxObservation o(CommonTime::BEGINNING_OF_TIME, (float)w.T, (float)w.P, (float)w.H);
   return o;
}
// impossible weather is refused and leaves a model that computes nothing
template <class M> static void set_all(M &m) {}
static void set_all(GGHeightTropModel &m) { m.setReceiverHeight(100); }
static void set_all(SaasTropModel &m) { m.setReceiverHeight(100); m.setReceiverLatitude(40); m.setDayOfYear(100); }
template <class M> static void refusal()
{
   M m;
   Wx w = arb_weather();
   set_all(m);
   if (possible(w))
   {
      m.setWeather(w.T, w.P, w.H);
      vp_ensure(m.isValid(), "possible weather makes the model valid");
      vp_ensure(m.press == w.P, "the pressure is the one given");
   }
   else
   {
      vp_ensure(bad_weather([&] { m.setWeather(w.T, w.P, w.H); }), "impossible weather is refused");
      vp_ensure(!m.isValid(), "and the model is not valid");
      set_all(m);
      vp_ensure(!m.isValid(), "nor after other parameters are given again");
      vp_ensure(no_model([&] { m.correction(45.0); }), "and gives no delay");
   }
}
extern "C" void vpproof__C35__refusal_simple__int_real() { refusal<SimpleTropModel>(); }
extern "C" void vpproof__C35__refusal_gg__int_real() { refusal<GGTropModel>(); }
extern "C" void vpproof__C35__refusal_height__int_real() { refusal<GGHeightTropModel>(); }
extern "C" void vpproof__C35__refusal_saas__int_real() { refusal<SaasTropModel>(); }
extern "C" void vpproof__C35__refusal_nb__int_real()
{
   NBTropModel m;
   Wx w = arb_weather();
   m.setReceiverHeight(100);
   m.setReceiverLatitude(40);
   m.setDayOfYear(100);
   if (possible(w))
   {
      m.setWeather(w.T, w.P, w.H);
      vp_ensure(m.isValid() && !m.interpolateWeather && m.press == w.P, "possible weather is used");
   }
   else
   {
      vp_ensure(bad_weather([&] { m.setWeather(w.T, w.P, w.H); }), "impossible weather is refused");
      vp_ensure(!m.isValid(), "and the model is not valid");
      m.setReceiverHeight(200);
      vp_ensure(!m.isValid() || m.interpolateWeather, "the refused weather is not used later");
   }
}
// an observation without values is refused
template <class M> static void unobserved()
{
   M m;
   set_all(m);
   WxObservation o;
   o.temperature = 10; o.pressure = 1000; o.humidity = 50;
   int which = (int)vp_i64("missing", 0, 2);
   o.temperatureSource = which == 0 ? WxObservation::noWx : WxObservation::obsWx;
   o.pressureSource = which == 1 ? WxObservation::noWx : WxObservation::obsWx;
   o.humiditySource = which == 2 ? WxObservation::noWx : WxObservation::obsWx;
   vp_ensure(bad_weather([&] { m.setWeather(o); }), "an observation lacking a value is refused");
   vp_ensure(!m.isValid(), "and the model is not valid");
}
extern "C" void vpproof__C35__unobserved_simple__int_real() { unobserved<SimpleTropModel>(); }
extern "C" void vpproof__C35__unobserved_gg__int_real() { unobserved<GGTropModel>(); }
extern "C" void vpproof__C35__unobserved_height__int_real() { unobserved<GGHeightTropModel>(); }
extern "C" void vpproof__C35__unobserved_saas__int_real() { unobserved<SaasTropModel>(); }
extern "C" void vpproof__C35__unobserved_nb__int_real() { unobserved<NBTropModel>(); }
// an observation is the same weather as its three numbers
template <class M> static void same_weather()
{
   M a, b;
   Wx w;
   w.T = (float)vp_f64("temperature", -80, 60);
   w.P = (float)vp_f64("pressure", 300, 1100);
   w.H = (float)vp_f64("humidity", 0, 105);
   WxObservation o = observed(w);
   w.T = o.temperature; w.P = o.pressure; w.H = o.humidity;
   vp_assume(possible(w));
   a.setWeather(w.T, w.P, w.H);
   b.setWeather(o);
   vp_ensure(a.temp == b.temp && a.press == b.press, "temperature and pressure are those observed");
   vp_ensure(vp_eqt(a.humid, b.humid, 100), "the humidity is that observed");
   vp_ensure(a.isValid() == b.isValid(), "both ways of giving weather leave the same validity");
}
extern "C" void vpproof__C35__same_simple__int_real() { same_weather<SimpleTropModel>(); }
extern "C" void vpproof__C35__same_gg__int_real() { same_weather<GGTropModel>(); }
extern "C" void vpproof__C35__same_height__int_real() { same_weather<GGHeightTropModel>(); }
extern "C" void vpproof__C35__same_saas__int_real() { same_weather<SaasTropModel>(); }
extern "C" void vpproof__C35__same_nb__int_real() { same_weather<NBTropModel>(); }
// humidity between 100 and 105 percent counts as 100
template <class M> static void saturated()
{
   M a, b;
   Wx w;
   w.T = vp_f64("temperature", -80, 60);
   w.P = vp_f64("pressure", 300, 1100);
   w.H = vp_f64("humidity", 100, 105);
   a.setWeather(w.T, w.P, w.H);
   b.setWeather(w.T, w.P, 100.0);
   vp_ensure(vp_eqt(a.humid, b.humid, 100), "humidity above 100 percent counts as 100");
}
extern "C" void vpproof__C35__saturated_simple__int_real() { saturated<SimpleTropModel>(); }
extern "C" void vpproof__C35__saturated_height__int_real() { saturated<GGHeightTropModel>(); }
extern "C" void vpproof__C35__saturated_saas__int_real() { saturated<SaasTropModel>(); }
extern "C" void vpproof__C35__saturated_nb__int_real() { saturated<NBTropModel>(); }
// ---------------------------------------------------------------- the delay is the sum of both zenith delays, mapped
static void composed(const TropModel &m, double floor_)
{
   double e = vp_f64("elevation", -90, 90);
   double c = m.correction(e);
   if (e < floor_) { vp_ensure(c == 0.0, "no delay below the lowest elevation of the model"); return; }
   vp_ensure(vp_eqt(c, m.dry_zenith_delay() * m.dry_mapping_function(e) + m.wet_zenith_delay() * m.wet_mapping_function(e), 1e4),
             "the delay is dry and wet zenith delay, each mapped to the elevation");
}
static void arb_good(Wx &w)
{
   w.T = vp_f64("temperature", -80, 60);
   w.P = vp_f64("pressure", 300, 1100);
   w.H = vp_f64("humidity", 1, 100);
}
extern "C" void vpproof__C35__composed_simple__int_real() { Wx w; arb_good(w); SimpleTropModel m(w.T, w.P, w.H); composed(m, 0); }
extern "C" void vpproof__C35__composed_simple0__int_real() { SimpleTropModel m; composed(m, 0); }
extern "C" void vpproof__C35__composed_gg__int_real() { Wx w; arb_good(w); GGTropModel m(w.T, w.P, w.H); composed(m, 0); }
extern "C" void vpproof__C35__composed_height__int_real()
{
   Wx w; arb_good(w);
   GGHeightTropModel m(w.T, w.P, w.H);
   m.setReceiverHeight(vp_f64("height", 0, 5000));
   composed(m, 0);
}
extern "C" void vpproof__C35__composed_gcat__int_real()
{
   GCATTropModel m(vp_f64("height", -1000, 10000));
   double e = vp_f64("elevation", -90, 90);
   double c = m.correction(e);
   if (e < 5.0) { vp_ensure(c == 0.0, "no delay below five degrees"); return; }
   double s = std::sin(e * DEG_TO_RAD);
   vp_ensure(vp_eqt(c, (2.29951 * std::exp(-0.000116 * m.gcatHeight) + 0.1) * (1.001 / std::sqrt(0.002001 + s * s)), 100), "the delay of the published model");
}
// ---------------------------------------------------------------- published formulas
extern "C" void vpproof__C35__simple_formula__int_real()
{
   Wx w; arb_good(w);
   SimpleTropModel m(w.T, w.P, w.H);
   double K = w.T + 273.15, e = vp_f64("elevation", 0, 90);
   double d = 2.343 * (w.P / 1013.25) * (K - 3.96) / K;
   double wet = 8.952 / (K * K) * w.H * std::exp(-37.2465 + 0.213166 * K - 0.256908e-3 * (K * K));
   vp_ensure(vp_eqt(m.dry_zenith_delay(), d, 10) && vp_eqt(m.wet_zenith_delay(), wet, 10), "zenith delays of the Black model");
   double c = std::cos(e * DEG_TO_RAD);
   double x = c / (1.0 + 0.15 * 148.98 * (K - 3.96) / GPSEllipsoid().a()), y = c / (1.0 + 0.15 * 12000.0 / GPSEllipsoid().a());
   vp_ensure(vp_eqt(m.dry_mapping_function(e), 1.0 / std::sqrt(1.0 - x * x), 1e3) && vp_eqt(m.wet_mapping_function(e), 1.0 / std::sqrt(1.0 - y * y), 1e3), "mapping functions of the Black model");
}
extern "C" void vpproof__C35__standard_atmosphere__int_real()
{
   double h = vp_f64("height", -1000, 20000), T, P, H;
   TropModel::weatherByStandardAtmosphereModel(h, T, P, H);
   vp_ensure(vp_eqt(T, 18.0 - 0.0065 * h, 100), "temperature falls 6.5 degrees per kilometer");
   vp_ensure(vp_eqt(P, 1013.25 * std::pow(1 - 0.0000226 * h, 5.225), 1000), "pressure of the standard atmosphere");
   vp_ensure(vp_eqt(H, 50 * std::exp(-0.0006396 * h), 100), "humidity of the standard atmosphere");
}
extern "C" void vpproof__C35__saas_dry__int_real()
{
   SimpleTropModel m;
   double p = vp_f64("pressure", 0, 1100), lat = vp_f64("latitude", -90, 90), h = vp_f64("height", -1000, 10000);
   vp_ensure(vp_eqt(m.SaasDryDelay(p, lat, h), 0.0022768 * p / (1 - 0.00266 * std::cos(2 * lat * DEG_TO_RAD) - 0.00028 * h / 1000.), 10), "hydrostatic zenith delay of Saastamoinen");
}
// Niell's mapping functions, and the interpolation of the tables by latitude
static const double DA[5] = {1.2769934e-3, 1.2683230e-3, 1.2465397e-3, 1.2196049e-3, 1.2045996e-3};
static const double DB[5] = {2.9153695e-3, 2.9152299e-3, 2.9288445e-3, 2.9022565e-3, 2.9024912e-3};
static const double DC[5] = {62.610505e-3, 62.837393e-3, 63.721774e-3, 63.824265e-3, 64.258455e-3};
static const double SA[5] = {0.0, 1.2709626e-5, 2.6523662e-5, 3.4000452e-5, 4.1202191e-5};
static const double SB[5] = {0.0, 2.1414979e-5, 3.0160779e-5, 7.2562722e-5, 11.723375e-5};
static const double SC[5] = {0.0, 9.0128400e-5, 4.3497037e-5, 84.795348e-5, 170.37206e-5};
static const double WA[5] = {5.8021897e-4, 5.6794847e-4, 5.8118019e-4, 5.9727542e-4, 6.1641693e-4};
static const double WB[5] = {1.4275268e-3, 1.5138625e-3, 1.4572752e-3, 1.5007428e-3, 1.7599082e-3};
static const double WC[5] = {4.3472961e-2, 4.6729510e-2, 4.3908931e-2, 4.4626982e-2, 5.4736038e-2};
static double table(const double *t, double alat)
{
   if (alat < 15) return t[0];
   if (alat >= 75) return t[4];
   int i = alat < 30 ? 0 : alat < 45 ? 1 : alat < 60 ? 2 : 3;
   double f = (alat - 15. * (i + 1)) / 15.;
   return t[i] + f * (t[i + 1] - t[i]);
}
// the same, with the row computed as the nearest line below
static double row(const double *t, double alat)
{
   if (alat < 15) return t[0];
   if (alat >= 75) return t[4];
   int i = int(alat / 15.0) - 1;
   double f = (alat - 15. * (i + 1)) / 15.;
   return t[i] + f * (t[i + 1] - t[i]);
}
static double fraction(double a, double b, double c, double s) { return (1. + a / (1. + b / (1. + c))) / (s + a / (s + b / (s + c))); }
static double niell_dry(double lat, double h, int doy, double e, bool south)
{
   double al = std::fabs(lat), t = doy - 28.;
   if (south && lat < 0) t += 365.25 / 2.;
   t *= 360.0 / 365.25;
   double ct = std::cos(t * DEG_TO_RAD), s = std::sin(e * DEG_TO_RAD);
   double a = row(DA, al) - ct * row(SA, al), b = row(DB, al) - ct * row(SB, al), c = row(DC, al) - ct * row(SC, al);
   return fraction(a, b, c, s) + (h / 1000.0) * (1. / s - fraction(0.0000253, 0.00549, 0.00114, s));
}
static double niell_wet(double lat, double e)
{
   double al = std::fabs(lat);
   return fraction(row(WA, al), row(WB, al), row(WC, al), std::sin(e * DEG_TO_RAD));
}
template <class M> static void niell(double lo, double from, double to, bool dry)
{
   M m;
   double lat = vp_f64("latitude", -90, 90), h = vp_f64("height", -1000, 10000), e = vp_f64("elevation", lo, 90);
   vp_assume(std::fabs(lat) >= from && std::fabs(lat) < to);
   int doy = (int)vp_i64("day", 1, 366);
   Wx w = {10, 1000, 50};
   m.setReceiverLatitude(lat);
   m.setReceiverHeight(h);
   m.setDayOfYear(doy);
   m.setWeather(w.T, w.P, w.H);
   if (dry) vp_ensure(vp_eqt(m.dry_mapping_function(e), niell_dry(lat, h, doy, e, true), 1e4), "hydrostatic mapping function of Niell");
   else vp_ensure(vp_eqt(m.wet_mapping_function(e), niell_wet(lat, e), 1e4), "wet mapping function of Niell");
}
// one proof for each band of latitude between the lines of the table
#define BANDS(N, M, lo, dry)\
extern "C" void vpproof__C35__niell_##N##_0__int_real() { niell<M>(lo, 0, 15, dry); }\
extern "C" void vpproof__C35__niell_##N##_15__int_real() { niell<M>(lo, 15, 30, dry); }\
extern "C" void vpproof__C35__niell_##N##_30__int_real() { niell<M>(lo, 30, 45, dry); }\
extern "C" void vpproof__C35__niell_##N##_45__int_real() { niell<M>(lo, 45, 60, dry); }\
extern "C" void vpproof__C35__niell_##N##_60__int_real() { niell<M>(lo, 60, 75, dry); }\
extern "C" void vpproof__C35__niell_##N##_75__int_real() { niell<M>(lo, 75, 91, dry); }
BANDS(saas_dry, SaasTropModel, 1, true)
BANDS(saas_wet, SaasTropModel, 1, false)
BANDS(neill_dry, NeillTropModel, 3, true)
BANDS(neill_wet, NeillTropModel, 3, false)
extern "C" void vpproof__C35__niell_delay__int_real()
{
   double lat = vp_f64("latitude", -90, 90), h = vp_f64("height", -1000, 10000), e = vp_f64("elevation", -90, 90);
   int doy = (int)vp_i64("day", 1, 366);
   NeillTropModel m(h, lat, doy);
   vp_ensure(m.isValid(), "the model is valid");
   double c = m.correction(e);
   if (e < 3.0) { vp_ensure(c == 0.0, "no delay below three degrees"); return; }
   vp_ensure(vp_eqt(c, 2.29951 * std::exp(-0.000116 * h) * m.dry_mapping_function(e) + 0.1 * m.wet_mapping_function(e), 1e4), "the delay of the model");
}
// ---------------------------------------------------------------- Goad and Goodman with heights
extern "C" void vpproof__C35__height_formula__int_real()
{
   Wx w; arb_good(w);
   GGHeightTropModel m(w.T, w.P, w.H);
   double h = vp_f64("height", 0, 4000), hT = vp_f64("height of temperature", 0, 4000), hP = vp_f64("height of pressure", 0, 4000), hH = vp_f64("height of humidity", 0, 4000);
   m.setHeights(hT, hP, hH);
   vp_ensure(!m.isValid(), "the height of the receiver is still missing");
   m.setReceiverHeight(h);
   vp_ensure(m.isValid() && m.htemp == hT && m.hpress == hP && m.hhumid == hH && m.height == h, "the heights are those given");
   double g = 6.5e-3, Ts = m.temp + g * hT, em = 978.77 / (2.8704e4 * g);
   double ps = m.press * std::pow(Ts / (Ts - g * hP), em) / 1000.0;
   double rs = 77.624e-3 / Ts, ho = 11.385 / rs, z = (ho - h) / ho;
   vp_ensure(vp_eqt(m.dry_zenith_delay(), rs * ps * z * z * z * z * ((ho - h) / 5), 100), "dry zenith delay, with the temperature brought to sea level from its own height");
}
extern "C" void vpproof__C35__height_default__int_real()
{
   Wx w; arb_good(w);
   GGHeightTropModel m(w.T, w.P, w.H);
   double h = vp_f64("height", 0, 4000);
   m.setReceiverHeight(h);
   vp_ensure(m.isValid() && m.htemp == h && m.hpress == h && m.hhumid == h, "weather is taken to be that at the receiver");
}
// ---------------------------------------------------------------- all parameters from a position and a time
template <class M> static double lat_of(M &);
template <class M> static double h_of(M &);
template <> double lat_of(NeillTropModel &m) { return m.NeillLat; }
template <> double h_of(NeillTropModel &m) { return m.NeillHeight; }
template <> double lat_of(MOPSTropModel &m) { return m.MOPSLat; }
template <> double h_of(MOPSTropModel &m) { return m.MOPSHeight; }
static int day_of(NeillTropModel &m) { return m.NeillDOY; }
static int day_of(MOPSTropModel &m) { return m.MOPSTime; }
template <class M> static void from_position(bool ctor)
{
   double lat = vp_f64("latitude", -90, 90), lon = vp_f64("longitude", 0, 359), h = vp_f64("height", -1000, 10000);
   Position p(lat, lon, h, Position::Geodetic);
   CommonTime t;
   t.set((long)vp_i64("day", 2451545, 2488069), (long)vp_i64("second", 0, 86399), 0.0, TimeSystem::GPS);
   int doy = YDSTime(t).doy;
   Used<M> u;
   M *m;
   if (ctor) m = new (u.at()) M(p, t);
   else { m = new (u.at()) M(); m->setAllParameters(t, p); }
   vp_ensure(m->isValid(), "the model is valid");
   vp_ensure(vp_eqt(lat_of(*m), lat, 90), "the latitude is that of the position");
   vp_ensure(vp_eqt(h_of(*m), h, 1e4), "the height is that of the position");
   vp_ensure(day_of(*m) == doy, "the day is that of the time");
}
extern "C" void vpproof__C35__all_neill__int_real() { from_position<NeillTropModel>(false); }
extern "C" void vpproof__C35__ctor_neill__int_real() { from_position<NeillTropModel>(true); }
// ---------------------------------------------------------------- New Brunswick and MOPS: tables of the average weather
static const double T0[5][5] = {{1013.25, 299.65, 26.31, 6.30e-3, 2.77}, {1017.25, 294.15, 21.79, 6.05e-3, 3.15}, {1015.75, 283.15, 11.66, 5.58e-3, 2.57},
                               {1011.75, 272.15, 6.78, 5.39e-3, 1.81}, {1013.00, 263.65, 4.11, 4.53e-3, 1.55}};
static const double TS[5][5] = {{0, 0, 0, 0, 0}, {-3.75, 7.0, 8.85, 0.25e-3, 0.33}, {-2.25, 11.0, 7.24, 0.32e-3, 0.46},
                               {-1.75, 15.0, 5.36, 0.81e-3, 0.74}, {-0.50, 14.5, 3.39, 0.62e-3, 0.30}};
static double weather(int k, double lat, double cosine)
{
   double a[5], s[5], al = std::fabs(lat);
   for (int i = 0; i < 5; i++) { a[i] = T0[i][k]; s[i] = TS[i][k]; }
   return table(a, al) - table(s, al) * cosine;
}
extern "C" void vpproof__C35__nb_weather__int_real()
{
   double lat = vp_f64("latitude", -90, 90), h = vp_f64("height", 0, 8000);
   int doy = (int)vp_i64("day", 1, 366);
   NBTropModel m(h, lat, doy);
   double c = std::cos(TWO_PI * (doy - 28.0) / 365.25);
   vp_ensure(m.isValid(), "the model is valid");
   vp_ensure(vp_eqt(m.press, weather(0, lat, c), 1e4) && vp_eqt(m.temp, weather(1, lat, c), 1e3) && vp_eqt(m.humid, weather(2, lat, c), 1e3), "the average weather of the latitude and day");
}
// the same, in the band that starts at a line of the table
static double weather_in(int k, double from, double lat, double cosine)
{
   double al = std::fabs(lat);
   int i = from < 15 ? 0 : (int)from / 15 - 1;
   if (from < 15 || from >= 75) return T0[i][k] - TS[i][k] * cosine;
   double f = (al - from) / 15.;
   return T0[i][k] + f * (T0[i + 1][k] - T0[i][k]) - (TS[i][k] + f * (TS[i + 1][k] - TS[i][k])) * cosine;
}
static void nb_zenith(double from, double to)
{
   double lat = vp_f64("latitude", -90, 90), h = vp_f64("height", 0, 8000);
   vp_assume(std::fabs(lat) >= from && std::fabs(lat) < to);
   int doy = (int)vp_i64("day", 1, 366);
   NBTropModel m(h, lat, doy);
   double c = std::cos(TWO_PI * (doy - 28.0) / 365.25);
   double beta = weather_in(3, from, lat, c);
   double gm = 9.784 * (1.0 - 2.66e-3 * std::cos(2.0 * lat * DEG_TO_RAD) - 2.8e-7 * h);
   double kd = std::exp(std::log(1.0 - beta * h / m.temp) * 9.80665 / (287.054 * beta));
   vp_ensure(vp_eqt(m.dry_zenith_delay(), 1.0e-6 * 77.604 * 287.054 / gm * kd * m.press, 10), "dry zenith delay of the average weather, brought to the height");
   double lam = weather_in(4, from, lat, c);
   double kw = std::exp(std::log(1.0 - beta * h / m.temp) * (-1.0 + (lam + 1) * 9.80665 / (287.054 * beta)));
   vp_ensure(vp_eqt(m.wet_zenith_delay(), 1.0e-6 * 382000 * 287.054 / (gm * (lam + 1) - beta * 287.054) * kw * m.humid / m.temp, 10), "wet zenith delay of the average weather, brought to the height");
}
extern "C" void vpproof__C35__nb_zenith_0__int_real() { nb_zenith(0, 15); }
extern "C" void vpproof__C35__nb_zenith_15__int_real() { nb_zenith(15, 30); }
extern "C" void vpproof__C35__nb_zenith_30__int_real() { nb_zenith(30, 45); }
extern "C" void vpproof__C35__nb_zenith_45__int_real() { nb_zenith(45, 60); }
extern "C" void vpproof__C35__nb_zenith_60__int_real() { nb_zenith(60, 75); }
extern "C" void vpproof__C35__nb_zenith_75__int_real() { nb_zenith(75, 91); }
static NBTropModel given(const Wx &w, double h, double lat, int doy)
{
   NBTropModel m;
   m.setReceiverHeight(h);
   m.setReceiverLatitude(lat);
   m.setDayOfYear(doy);
   m.setWeather(w.T, w.P, w.H);
   return m;
}
extern "C" void vpproof__C35__nb_given__int_real()
{
   Wx w; arb_good(w);
   double lat = vp_f64("latitude", -90, 90), h = vp_f64("height", 0, 8000);
   int doy = (int)vp_i64("day", 1, 366);
   NBTropModel m = given(w, h, lat, doy);
   double gm = 9.784 * (1.0 - 2.66e-3 * std::cos(2.0 * lat * DEG_TO_RAD) - 2.8e-7 * h);
   vp_ensure(vp_eqt(m.dry_zenith_delay(), 1.0e-6 * 77.604 * 287.054 / gm * w.P, 10), "dry zenith delay of the weather given");
   double th = 300. / m.temp;
   vp_ensure(vp_eqt(m.humid, 2.409e9 * w.H * th * th * th * th * std::exp(-22.64 * th), 100), "humidity is kept as water vapor pressure");
   vp_ensure(m.temp == w.T + 273.15, "temperature is kept in kelvin");
}
extern "C" void vpproof__C35__composed_nb__int_real()
{
   Wx w; arb_good(w);
   NBTropModel m = given(w, vp_f64("height", 0, 8000), vp_f64("latitude", -90, 90), (int)vp_i64("day", 1, 366));
   composed(m, 0);
}
extern "C" void vpproof__C35__composed_saas__int_real()
{
   Wx w; arb_good(w);
   SaasTropModel m(vp_f64("latitude", -90, 90), (int)vp_i64("day", 1, 366), w.T, w.P, w.H);
   vp_ensure(!m.isValid(), "the height is still missing");
   m.setReceiverHeight(vp_f64("height", 0, 8000));
   vp_ensure(m.temp == w.T, "temperature is kept in degrees Celsius");
   vp_ensure(vp_eqt(m.dry_zenith_delay(), 0.0022768 * w.P / (1 - 0.00266 * std::cos(2 * m.latitude * DEG_TO_RAD) - 0.00028 * m.height / 1000.), 10), "hydrostatic zenith delay");
   double x = 7.5 * w.T / (w.T + 237.3);
   vp_ensure(vp_eqt(m.humid, 6.11 * (w.H / 100.) * std::pow(10.0, x), 100), "humidity is kept as water vapor pressure");
   composed(m, 0);
}
// Goad and Goodman
static double gg_map(double e, double H, double scale)
{
   double A = GPSEllipsoid().a(), c = std::cos(e * DEG_TO_RAD), s = std::sin(e * DEG_TO_RAD);
   double a = -s / H, b = -c * c / (2.0 * A * H), r = std::sqrt((A + H) * (A + H) - A * A * c * c) - A * s, a2 = a * a, b2 = b * b;
   double k[9] = {1.0, 4.0 * a, 6.0 * a2 + 4.0 * b, 4.0 * a * (a2 + 3.0 * b), a2 * a2 + 12.0 * a2 * b + 6.0 * b2, 4.0 * a * b * (a2 + 3.0 * b),
                  b2 * (6.0 * a2 + 4.0 * b), 4.0 * a * b * b2, b2 * b2};
   double sum = 0;
   for (int i = 8; i >= 0; i--) { sum += k[i] / (i + 1.0); sum *= r; }
   return sum / scale;
}
extern "C" void vpproof__C35__gg_formula__int_real()
{
   Wx w; arb_good(w);
   GGTropModel m(w.T, w.P, w.H);
   double K = w.T + 273.15, th = 300. / K, e = vp_f64("elevation", 0, 90);
   double v = 2.409e9 * w.H * th * th * th * th * std::exp(-22.64 * th);
   vp_ensure(vp_eqt(m.Cdrydelay, 7.7624e-5 * w.P / K, 1e-3) && vp_eqt(m.Cwetdelay, 1.0e-6 * (-12.92 + 3.719e+05 / K) * (v / K), 1e-3), "refractivities at the ground");
   vp_ensure(vp_eqt(m.Cdrymap, 5.0 * 0.002277 * w.P / m.Cdrydelay, 1e5) && vp_eqt(m.Cwetmap, 5.0 * 0.002277 / m.Cwetdelay * (1255.0 / K + 0.5) * v, 1e5), "heights of the atmosphere");
   vp_ensure(vp_eqt(m.dry_zenith_delay(), m.Cdrydelay * 8594.777388436570600, 10) && vp_eqt(m.wet_zenith_delay(), m.Cwetdelay * 2540.042008403690900, 10), "zenith delays");
#ifdef VP_PROOF
   vp_ensure(m.dry_mapping_function(e) == gg_map(e, m.Cdrymap, 8594.777388436570600), "dry mapping function");
   vp_ensure(m.wet_mapping_function(e) == gg_map(e, m.Cwetmap, 2540.042008403690900), "wet mapping function");
#else
   vp_ensure(vp_eqt(m.dry_mapping_function(e), gg_map(e, m.Cdrymap, 8594.777388436570600), 1e5), "dry mapping function");
   vp_ensure(vp_eqt(m.wet_mapping_function(e), gg_map(e, m.Cwetmap, 2540.042008403690900), 1e5), "wet mapping function");
#endif
}
// with heights: wet zenith delay and the mapping functions
extern "C" void vpproof__C35__height_wet__int_real()
{
   Wx w; arb_good(w);
   GGHeightTropModel m(w.T, w.P, w.H);
   double h = vp_f64("height", 0, 4000), hT = vp_f64("height of temperature", 0, 4000), hP = vp_f64("height of pressure", 0, 4000), hH = vp_f64("height of humidity", 0, 4000);
   m.setHeights(hT, hP, hH);
   m.setReceiverHeight(h);
   double g = 6.5e-3, Th = m.temp - 273.15 - g * (hH - hT), e0 = 6.11e-5 * w.H * std::pow(10.0, 7.5 * Th / (237.3 + Th));
   double Ts = m.temp + g * hT, em = 978.77 / (2.8704e4 * g), Tk = Ts - g * hH, es = e0 * std::pow(Ts / Tk, 4.0 * em);
   double rs = (371900.0e-3 / Ts - 12.92e-3) / Ts, ho = 11.385 * (1255 / Ts + 0.05) / rs, z = (ho - h) / ho;
   vp_ensure(vp_eqt(m.wet_zenith_delay(), rs * es * z * z * z * z * ((ho - h) / 5), 100), "wet zenith delay");
}
static double height_map(double e, double h, double ho)
{
   double s = std::sin(e * DEG_TO_RAD), A = GPSEllipsoid().a();
   if (s < 0) s = 0;
   double r = (A + ho) / (A + h);
   r = r * r - (1.0 - s * s);
   if (r < 0) r = 0;
   r = (A + h) * (std::sqrt(r) - s);
   double a = -s / (ho - h), b = -(1.0 - s * s) / (2.0 * A * (ho - h)), p[8];
   p[0] = r * r;
   for (int i = 1; i < 8; i++) p[i] = p[i - 1] * r;
   double k[8] = {2 * a, 2 * a * a + 4 * b / 3, a * (a * a + 3 * b), a * a * a * a / 5 + 2.4 * a * a * b + 1.2 * b * b, 2 * a * b * (a * a + 3 * b) / 3,
                  b * b * (6 * a * a + 4 * b) * 0.1428571, 0, 0};
   if (b * b > 1.0e-35) { k[6] = a * b * b * b / 2; k[7] = b * b * b * b / 9; }
   double map = r;
   for (int i = 0; i < 8; i++) map += k[i] * p[i];
   return map / ((ho - h) / 5);
}
static void height_mapping(bool dry)
{
   Wx w; arb_good(w);
   GGHeightTropModel m(w.T, w.P, w.H);
   double h = vp_f64("height", 0, 4000), hT = vp_f64("height of temperature", 0, 4000), e = vp_f64("elevation", 0, 90);
   m.setHeights(hT, 10, 20);
   m.setReceiverHeight(h);
   double Ts = m.temp + 6.5e-3 * hT;
   if (dry) vp_ensure(vp_eqt(m.dry_mapping_function(e), height_map(e, h, (11.385 / 77.624e-3) * Ts), 1e5), "dry mapping function");
   else
   {
      double rs = (371900.0e-3 / Ts - 12.92e-3) / Ts;
      vp_ensure(vp_eqt(m.wet_mapping_function(e), height_map(e, h, 11.385 * (1255 / Ts + 0.05) / rs), 1e5), "wet mapping function");
   }
}
extern "C" void vpproof__C35__height_map_dry__int_real() { height_mapping(true); }
extern "C" void vpproof__C35__height_map_wet__int_real() { height_mapping(false); }
// ---------------------------------------------------------------- MOPS (RTCA/DO-229, appendix A.4.2.4)
static void mops(double from, double to, bool south)
{
   double lat = vp_f64("latitude", -90, 90), h = vp_f64("height", 0, 8000), e = vp_f64("elevation", -90, 90);
   vp_assume(south ? lat < 0 && -lat > from && -lat <= to : lat >= 0 && lat > from && lat <= to);
   int doy = (int)vp_i64("day", 1, 366);
   MOPSTropModel m(h, lat, doy);
   vp_ensure(m.isValid(), "the model is valid");
   double c = std::cos(2.0 * PI * (double)(doy - (south ? 211 : 28)) / 365.25), P[5];
   for (int k = 0; k < 5; k++)
   {
      P[k] = weather(k, lat, c);
      vp_ensure(vp_eqt(m.MOPSParameters(k), P[k], 1e3), "parameters of the latitude and the season of its hemisphere");
      P[k] = m.MOPSParameters(k);
   }
   double x = 9.80665 / 287.054 / P[3];
   vp_ensure(vp_eqt(m.dry_zenith_delay(), 0.000001 * (77.604 * 287.054) * P[0] / 9.784 * std::pow(1.0 - P[3] * h / P[1], x), 10), "dry zenith delay");
   double y = (P[4] + 1.0) * 9.80665 / 287.054 / P[3] - 1.0;
   vp_ensure(vp_eqt(m.wet_zenith_delay(), (0.000001 * 382000.0) * 287.054 / (9.784 * (P[4] + 1.0) - P[3] * 287.054) * P[2] / P[1] * std::pow(1.0 - P[3] * h / P[1], y), 10), "wet zenith delay");
   double d = m.correction(e), s2 = m.MOPSsigma2(e);
   if (e < 5.0) { vp_ensure(d == 0.0 && s2 == 9.9e9, "no delay below five degrees"); return; }
   double s = std::sin(e * DEG_TO_RAD), map = 1.001 / std::sqrt(0.002001 + s * s);
   vp_ensure(vp_eqt(d, (m.dry_zenith_delay() + m.wet_zenith_delay()) * map, 100), "the delay is mapped to the elevation");
   vp_ensure(vp_eqt(s2, 0.12 * map * (0.12 * map), 10), "variance of what remains");
}
extern "C" void vpproof__C35__mops_0__int_real() { mops(-1, 15, false); }
extern "C" void vpproof__C35__mops_15__int_real() { mops(15, 30, false); }
extern "C" void vpproof__C35__mops_30__int_real() { mops(30, 45, false); }
extern "C" void vpproof__C35__mops_45__int_real() { mops(45, 60, false); }
extern "C" void vpproof__C35__mops_60__int_real() { mops(60, 75, false); }
extern "C" void vpproof__C35__mops_75__int_real() { mops(75, 90, false); }
extern "C" void vpproof__C35__mops_s0__int_real() { mops(-1, 15, true); }
extern "C" void vpproof__C35__mops_s15__int_real() { mops(15, 30, true); }
extern "C" void vpproof__C35__mops_s30__int_real() { mops(30, 45, true); }
extern "C" void vpproof__C35__mops_s45__int_real() { mops(45, 60, true); }
extern "C" void vpproof__C35__mops_s60__int_real() { mops(60, 75, true); }
extern "C" void vpproof__C35__mops_s75__int_real() { mops(75, 90, true); }
extern "C" void vpproof__C35__all_mops__int_real() { from_position<MOPSTropModel>(false); }
extern "C" void vpproof__C35__ctor_mops__int_real() { from_position<MOPSTropModel>(true); }

// ---------------------------------------------------------------- parameters taken from the receiver, the satellite and the time
static double elevation_;
#ifdef VP_PROOF
// angles seen from a position: contracts of C24, used here by name
extern "C" double vpstub___ZNK5gpstk8Position9elevationERKS0_(const Position *, const Position *) { return elevation_; }
extern "C" double vpstub___ZNK5gpstk8Position17elevationGeodeticERKS0_(const Position *, const Position *) { return elevation_; }
#endif
template <class M> static void positions(M &a, M &b, bool geodetic)
{
   double lat = vp_f64("latitude", -90, 90), lon = vp_f64("longitude", 0, 359), h = vp_f64("height", 0, 8000);
   Position R(lat, lon, h, Position::Geodetic), S(26000e3 * 0.5, 26000e3 * 0.5, 26000e3 * 0.7, Position::Cartesian);
   CommonTime t;
   t.set((long)vp_i64("day", 2451545, 2488069), (long)vp_i64("second", 0, 86399), 0.0, TimeSystem::GPS);
   elevation_ = vp_f64("elevation", 0.1, 90);
#ifndef VP_PROOF
   elevation_ = geodetic ? R.elevationGeodetic(S) : R.elevation(S);
   if (elevation_ > -0.1 && elevation_ < 5.1) return;
#endif
   double got = a.correction(R, S, t);
   b.setReceiverHeight(R.getHeight());
   b.setReceiverLatitude(R.getGeodeticLatitude());
   b.setDayOfYear(YDSTime(t).doy);
   vp_ensure(vp_eqt(got, b.correction(elevation_), 100), "the delay is that at the height and latitude of the receiver, the day of the time, and the elevation of the satellite");
}
extern "C" void vpproof__C35__seen_saas__int_real()
{
   SaasTropModel a, b;
   a.setWeather(10, 1000, 50);
   b.setWeather(10, 1000, 50);
   positions(a, b, false);
}
extern "C" void vpproof__C35__seen_nb__int_real()
{
   NBTropModel a, b;
   a.setWeather(10, 1000, 50);
   b.setWeather(10, 1000, 50);
   a.setReceiverHeight(0); a.setReceiverLatitude(0); a.setDayOfYear(1);
   positions(a, b, false);
}
extern "C" void vpproof__C35__seen_height__int_real()
{
   GGHeightTropModel a, b;
   a.setWeather(10, 1000, 50);
   b.setWeather(10, 1000, 50);
   a.setHeights(100, 100, 100);
   b.setHeights(100, 100, 100);
   a.setReceiverHeight(50);
   positions(a, b, false);
}
extern "C" void vpproof__C35__seen_gcat__int_real() { GCATTropModel a, b; positions(a, b, true); }
extern "C" void vpproof__C35__seen_neill__int_real() { NeillTropModel a, b; positions(a, b, true); }
