// Service interface, configuration text and start-up of the middleware for the full-stack workloads.
#ifndef COM_UTIL_H
#define COM_UTIL_H
#include "vh.h"
#include "score/mw/com/runtime.h"
#include "score/mw/com/types.h"
#include <fstream>
#include <optional>
namespace cu
{
namespace com = score::mw::com;
struct EventCfg
{
    unsigned slots{10};
    unsigned subscribers{3};
    int control_slots_extra{0};
};
struct Sample
{
    std::uint64_t id{0};
    std::uint32_t len{0};
    std::uint32_t pad{0};
    std::uint64_t body[29]{};
    std::uint64_t sum{0};
};
inline void fill(Sample& s, std::uint64_t id)
{
    s.id = id;
    s.len = static_cast<std::uint32_t>(id % 30U);
    std::uint64_t acc = vh::mix(id);
    for (std::uint64_t i = 0; i < 29U; ++i)
    {
        s.body[i] = vh::comb(id, i);
        acc = vh::comb(acc, s.body[i]);
    }
    s.sum = acc;
}
// A reader's view of the sample: 0 when it is intact
inline bool intact(const Sample& s)
{
    const volatile Sample& v = s;
    const std::uint64_t id = v.id;
    std::uint64_t acc = vh::mix(id);
    for (std::uint64_t i = 0; i < 29U; ++i)
    {
        if (v.body[i] != vh::comb(id, i))
        {
            return false;
        }
        acc = vh::comb(acc, v.body[i]);
    }
    return v.sum == acc && v.len == static_cast<std::uint32_t>(id % 30U);
}
inline void write_file(const std::string& p, const std::string& t)
{
    std::ofstream f{p};
    f << t;
    f.close();
    if (!f)
    {
        vh::inconclusive("cannot write " + p);
    }
}
inline com::InstanceSpecifier spec(const std::string& s)
{
    return com::InstanceSpecifier::Create(std::string{s}).value();
}
}  // namespace cu
#endif
