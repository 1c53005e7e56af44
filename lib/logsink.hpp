// Captures what the library logs.
#ifndef VP_LOGSINK_HPP
#define VP_LOGSINK_HPP
#include "spdlog/sinks/base_sink.h"
#include "spdlog/spdlog.h"
#include <mutex>
#include <string>
#include <vector>
namespace logsink {
static std::vector<std::string> lines;
class Sink : public spdlog::sinks::base_sink<std::mutex> {
    void sink_it_(const spdlog::details::log_msg &m) override { lines.push_back(std::string(m.payload.data(), m.payload.size())); }
    void flush_() override {}
};
inline void install(spdlog::level::level_enum lv = spdlog::level::info) {
    auto lg = std::make_shared<spdlog::logger>("vp", std::make_shared<Sink>());
    spdlog::set_default_logger(lg);
    lg->set_level(lv);
}
// the numbers following the last line that contains tag (anything that is not part of a number separates)
inline std::vector<double> numbers(const char *tag) {
    std::vector<double> r;
    for (auto it = lines.rbegin(); it != lines.rend(); ++it) {
        size_t p = it->find(tag);
        if (p == std::string::npos)
            continue;
        const char *c = it->c_str() + p + strlen(tag);
        while (*c) {
            char *e;
            double v = strtod(c, &e);
            if (e == c)
                c++;
            else
                r.push_back(v), c = e;
        }
        break;
    }
    return r;
}
} // namespace logsink
#endif
