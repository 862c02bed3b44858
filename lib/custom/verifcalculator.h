/* A rate function compiled into the package, for the checks only: the same formula as lib/calc.py. */
#ifndef __VERIFCALCULATOR__
#define __VERIFCALCULATOR__

#include <string>
#include <vector>

#include "ratecalculator.h"
#include "configuration.h"

class VerifCalculator : public RateCalculator {

public:

    VerifCalculator(const Configuration & config);
    virtual ~VerifCalculator();

    virtual
    double backendRateCallback(const std::vector<double> geometry,
                               const int len,
                               const std::vector<std::string> & types_before,
                               const std::vector<std::string> & types_after,
                               const double rate_constant,
                               const int process_number,
                               const double global_x,
                               const double global_y,
                               const double global_z) const;

    virtual
    double backendRateCallbackBuckets(const std::vector<double> geometry,
                                      const int len,
                                      const std::vector<TypeBucket> & occupation,
                                      const std::vector<TypeBucket> & update,
                                      const std::vector<std::string> & type_map,
                                      const double rate_constant,
                                      const int process_number,
                                      const double global_x,
                                      const double global_y,
                                      const double global_z) const;

    double cutoff() const;
    bool cacheRates() const;
    std::vector<int> excludeFromCaching() const;

    // Settings for the calculators made afterwards.
    static void reset();
    static void setType(const std::string & t);
    static void setNumber(const std::string & key, const double value);
    static void addBase(const double value);
    static void addLocal(const int process);
    static void addExcluded(const int process);

    // Calls since the last reset.
    static int calls();

private:

    double formula(const std::vector<double> & geometry, const std::vector<double> & before,
                   const std::vector<double> & after, const double rate_constant, const int process_number,
                   const double x) const;
    const Configuration & config_;
};

#endif
