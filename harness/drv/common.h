#pragma once
// Request/response loop shared by the drivers: one JSON object per line on stdin, one per line on stdout.
#include <functional>
#include <iostream>
#include <string>

#include <nlohmann/json.hpp>

using json = nlohmann::json;

inline int serve(const std::function<json(const json&)>& handle)
{
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line))
    {
        json out;
        try
        {
            out = handle(json::parse(line));
        }
        catch (const std::exception& e)
        {
            // an exception that leaves the public entry points is a crash of the real server
            out = json { { "exception", e.what() } };
        }
        std::cout << out.dump(-1, ' ', false, json::error_handler_t::replace) << "\n" << std::flush;
    }
    return 0;
}
