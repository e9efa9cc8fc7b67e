#ifndef VERIF_SHIM_IPV4_H
#define VERIF_SHIM_IPV4_H
#include <arpa/inet.h>
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
namespace score::os
{
class Ipv4Address
{
  public:
    Ipv4Address() = default;
    explicit Ipv4Address(const std::string& s)
    {
        in_addr a{};
        if (::inet_pton(AF_INET, s.c_str(), &a) == 1)
        {
            std::memcpy(b_.data(), &a, 4);
        }
    }
    std::array<std::uint8_t, 4> ToIpv4Bytes() const noexcept { return b_; }
    std::string ToString() const
    {
        char t[INET_ADDRSTRLEN]{};
        ::inet_ntop(AF_INET, b_.data(), t, sizeof t);
        return t;
    }
    friend bool operator==(const Ipv4Address& a, const Ipv4Address& b) noexcept { return a.b_ == b.b_; }

  private:
    std::array<std::uint8_t, 4> b_{};
};
}  // namespace score::os
#endif
