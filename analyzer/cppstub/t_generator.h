#include <stdint.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
class t_program; class t_scope; class t_service; class t_type;
class t_doc { public: bool has_doc(); const std::string& get_doc() const; };
class t_type : public t_doc { public:
  virtual bool is_void() const; virtual bool is_base_type() const; virtual bool is_string() const; virtual bool is_bool() const;
  virtual bool is_typedef() const; virtual bool is_enum() const; virtual bool is_struct() const; virtual bool is_xception() const;
  virtual bool is_container() const; virtual bool is_list() const; virtual bool is_set() const; virtual bool is_map() const; virtual bool is_service() const;
  virtual const std::string& get_name() const; t_program* get_program(); const t_program* get_program() const;
  t_type* get_true_type(); virtual ~t_type(); };
class t_base_type : public t_type { public: enum t_base { TYPE_VOID, TYPE_STRING, TYPE_BOOL, TYPE_BYTE, TYPE_I16, TYPE_I32, TYPE_I64, TYPE_DOUBLE };
  t_base get_base() const; bool is_binary() const; bool is_string_list() const; bool is_string_enum() const; static std::string t_base_name(t_base); };
class t_typedef : public t_type { public: t_type* get_type() const; const std::string& get_symbolic() const; };
class t_enum_value : public t_doc { public: const std::string& get_name() const; bool has_value(); int get_value(); };
class t_enum : public t_type { public: const std::vector<t_enum_value*>& get_constants(); };
class t_const_value { public: enum t_const_value_type { CV_INTEGER, CV_DOUBLE, CV_STRING, CV_MAP, CV_LIST, CV_IDENTIFIER };
  std::string get_string() const; int64_t get_integer() const; double get_double() const; const std::map<t_const_value*, t_const_value*>& get_map() const;
  const std::vector<t_const_value*>& get_list() const; std::string get_identifier() const; std::string get_identifier_name() const; t_const_value_type get_type() const; };
class t_const : public t_doc { public: t_type* get_type() const; std::string get_name() const; t_const_value* get_value() const; };
class t_field : public t_doc { public: enum e_req { T_REQUIRED, T_OPTIONAL, T_OPT_IN_REQ_OUT };
  t_field(t_type*, std::string); t_field(t_type*, std::string, int32_t); t_type* get_type(); const t_type* get_type() const;
  const std::string& get_name() const; int32_t get_key() const; e_req get_req() const; t_const_value* get_value(); const t_const_value* get_value() const; };
class t_struct : public t_type { public: t_struct(t_program*); t_struct(t_program*, const std::string&); void set_name(const std::string&); bool append(t_field*);
  const std::vector<t_field*>& get_members(); const std::vector<t_field*>& get_sorted_members(); bool is_union(); };
class t_function : public t_doc { public: t_type* get_returntype() const; const std::string& get_name() const; t_struct* get_xceptions() const; t_struct* get_arglist() const; bool is_oneway() const; };
class t_service : public t_type { public: const std::vector<t_function*>& get_functions() const; t_service* get_extends(); };
class t_container : public t_type { public: std::string get_cpp_name(); bool has_cpp_name(); };
class t_map : public t_container { public: t_type* get_key_type() const; t_type* get_val_type() const; };
class t_list : public t_container { public: t_type* get_elem_type() const; };
class t_set : public t_container { public: t_type* get_elem_type() const; };
class t_program : public t_doc { public: const std::string& get_name() const; const std::string& get_path() const; const std::vector<t_program*>& get_includes() const;
  const std::vector<t_service*>& get_services() const; std::string get_namespace(std::string) const; const std::string& get_include_prefix() const; };
extern t_type *g_type_void, *g_type_string, *g_type_binary, *g_type_slist, *g_type_bool, *g_type_byte, *g_type_i16, *g_type_i32, *g_type_i64, *g_type_double;
class t_generator { public: t_generator(t_program*); virtual ~t_generator();
  virtual void init_generator(); virtual void close_generator(); 
 protected:
  virtual void generate_typedef(t_typedef*) = 0; virtual void generate_enum(t_enum*) = 0; virtual void generate_const(t_const*); virtual void generate_struct(t_struct*) = 0;
  virtual void generate_service(t_service*) = 0; virtual void generate_xception(t_struct*);
  std::string get_out_dir() const; std::string tmp(std::string); void indent_up(); void indent_down(); std::string indent(); std::ostream& indent(std::ostream&);
  std::string capitalize(std::string); std::string decapitalize(std::string); std::string lowercase(std::string); std::string underscore(std::string); std::string camelcase(std::string);
  virtual std::string get_escaped_string(t_const_value*) ; std::string escape_string(const std::string&) const; static t_type* get_true_type(t_type*);
  void generate_docstring_comment(std::ostream&, const std::string&, const std::string&, const std::string&, const std::string&);
  t_program* program_; std::string program_name_; std::string service_name_; std::string out_dir_base_; };
#define THRIFT_REGISTER_GENERATOR(a, b, c)
