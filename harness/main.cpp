#include "drv.hpp"
#include <unistd.h>
namespace drv {
std::map<std::string, std::function<void()>> &commands() {
    static std::map<std::string, std::function<void()>> m;
    return m;
}
}
int main() {
    std::string c;
    while (std::cin >> c) {
        auto it = drv::commands().find(c);
        if (it == drv::commands().end()) { std::printf("end unknown %s\n", c.c_str()); std::fflush(stdout); return 3; }
        std::string rest, line;
        try {
            it->second();
            std::printf("end ok\n");
        } catch (const std::exception &e) {
            std::printf("end exc %s\n", e.what());
        } catch (int e) {
            std::printf("end exc int %d\n", e);
        } catch (...) {
            std::printf("end exc unknown\n");
        }
        std::fflush(stdout);
        // arguments an exception left unread are skipped up to the separator
        while (std::cin >> line && line != ";") {}
    }
    std::fflush(stdout);
    _exit(0);
}
