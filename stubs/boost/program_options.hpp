// Declarations of the parts of Boost.Program_options the programs name: nothing here is ever run.
#pragma once
#include <string>
#include <vector>
namespace boost
{
    namespace program_options
    {
        struct value_semantic {
            std::string text;
            std::string name() const { return text; }
        };
        template <typename T>
        struct typed_value : value_semantic {
            typed_value* default_value(const T&);
        };
        template <typename T>
        typed_value<T>* value();

        struct option_description {
            std::string key_, description_;
            value_semantic semantic_;
            const std::string& key(const std::string&) const { return key_; }
            const value_semantic* semantic() const { return &semantic_; }
        };
        // a handle that is never empty
        struct option_handle {
            option_description it;
            const option_description* operator->() const { return &it; }
            const option_description& operator*() const { return it; }
        };
        struct options_description_easy_init {
            options_description_easy_init& operator()(const char*, const char*);
            options_description_easy_init& operator()(const char*, const value_semantic*,
                                                      const char*);
        };
        struct options_description {
            std::vector<option_handle> options_;
            options_description_easy_init add_options();
            const std::vector<option_handle>& options() const { return options_; }
        };
        template <typename Stream>
        Stream& operator<<(Stream& s, const options_description&)
        {
            return s;
        }
        template <typename Char>
        struct basic_option {
            std::string string_key;
            std::vector<std::string> value;
            bool unregistered;
        };
        using option = basic_option<char>;
        template <typename Char>
        struct basic_parsed_options {
            std::vector<basic_option<Char>> options;
        };
        using parsed_options = basic_parsed_options<char>;

        struct variable_value {
            template <typename T>
            const T& as() const;
        };
        struct variables_map {
            std::size_t count(const std::string&) const;
            const variable_value& operator[](const std::string&) const;
        };
        void store(const parsed_options&, variables_map&);
        void notify(variables_map&);
        parsed_options parse_command_line(int, const char* const*, const options_description&);

        struct command_line_parser {
            explicit command_line_parser(const std::vector<std::string>& args);
            command_line_parser& options(const options_description&) { return *this; }
            parsed_options run();
        };
    } // namespace program_options
} // namespace boost
