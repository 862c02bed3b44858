#include <algorithm>
#include <cmath>
#include <map>

#include "verifcalculator.h"

namespace {
std::string type__;
std::map<std::string, double> number__;
std::vector<double> base__;
std::vector<int> local__, excluded__;
int calls__ = 0;
const double D__ = 24.0;

double get(const std::string & k) { return number__.count(k) ? number__[k] : 0.0; }
long mod(const long a, const long n) { return ((a % n) + n) % n; }
long nearest(const double x) { return static_cast<long>(std::floor(x + 0.5)); }
}

VerifCalculator::VerifCalculator(const Configuration & config) : config_(config) {}
VerifCalculator::~VerifCalculator() {}

double VerifCalculator::formula(const std::vector<double> & geometry, const std::vector<double> & before,
                                const std::vector<double> & after, const double rate_constant,
                                const int process_number, const double x) const
{
    ++calls__;
    double nb = 0.0, na = 0.0;
    for (size_t i = 0; i < before.size(); ++i)
    {
        double w = 1.0;
        if (get("w") != 0.0)
        {
            const long o = nearest(geometry[3*i] * D__) + 3 * nearest(geometry[3*i+1] * D__) + 7 * nearest(geometry[3*i+2] * D__);
            w = 1.0 + 0.3 * mod(o, 5);
        }
        nb += w * before[i];
        na += w * after[i];
    }
    const double f = get("fine") != 0.0 ? get("fine") : 1.0;
    double r = base__[process_number % base__.size()] * (1.0 + f * (get("a") * nb + get("b") * na));
    if (get("g") != 0.0 && std::find(local__.begin(), local__.end(), process_number) == local__.end())
    {
        r *= 1.0 + f * get("g") * mod(nearest(x * D__), 5);
    }
    if (get("rc") != 0.0)
    {
        r *= rate_constant;
    }
    return r;
}

double VerifCalculator::backendRateCallback(const std::vector<double> geometry,
                                            const int len,
                                            const std::vector<std::string> & types_before,
                                            const std::vector<std::string> & types_after,
                                            const double rate_constant,
                                            const int process_number,
                                            const double global_x,
                                            const double global_y,
                                            const double global_z) const
{
    std::vector<double> b(len), a(len);
    for (int i = 0; i < len; ++i)
    {
        b[i] = types_before[i] == type__ ? 1.0 : 0.0;
        a[i] = types_after[i] == type__ ? 1.0 : 0.0;
    }
    return formula(geometry, b, a, rate_constant, process_number, global_x + global_y + global_z);
}

double VerifCalculator::backendRateCallbackBuckets(const std::vector<double> geometry,
                                                   const int len,
                                                   const std::vector<TypeBucket> & occupation,
                                                   const std::vector<TypeBucket> & update,
                                                   const std::vector<std::string> & type_map,
                                                   const double rate_constant,
                                                   const int process_number,
                                                   const double global_x,
                                                   const double global_y,
                                                   const double global_z) const
{
    const int t = std::find(type_map.begin(), type_map.end(), type__) - type_map.begin();
    std::vector<double> b(len), a(len);
    for (int i = 0; i < len; ++i)
    {
        b[i] = occupation[i][t];
        a[i] = occupation[i][t] + update[i][t];
    }
    return formula(geometry, b, a, rate_constant, process_number, global_x + global_y + global_z);
}

double VerifCalculator::cutoff() const { return get("cutoff"); }
bool VerifCalculator::cacheRates() const { return get("cache") != 0.0; }
std::vector<int> VerifCalculator::excludeFromCaching() const { return excluded__; }

void VerifCalculator::reset()
{
    number__.clear();
    base__.clear();
    local__.clear();
    excluded__.clear();
    calls__ = 0;
}
void VerifCalculator::setType(const std::string & t) { type__ = t; }
void VerifCalculator::setNumber(const std::string & key, const double value) { number__[key] = value; }
void VerifCalculator::addBase(const double value) { base__.push_back(value); }
void VerifCalculator::addLocal(const int process) { local__.push_back(process); }
void VerifCalculator::addExcluded(const int process) { excluded__.push_back(process); }
int VerifCalculator::calls() { return calls__; }
