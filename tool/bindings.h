// Stands in for platform/sfw_compat.h, where registration compiles to nothing: here the
// registrations stay in the syntax tree, as calls with their arguments. Only parsed, never run.
#ifndef VP_BINDINGS_H
#define VP_BINDINGS_H

struct vp_method_name {};
template <class... A>
inline vp_method_name vp_method(A...) { return vp_method_name(); }
template <class... A>
inline void vp_bound(A...) {}
template <class... A>
inline void vp_property(A...) {}
inline void vp_constant(const char *, long long) {}

class ClassDB {
public:
	template <class F, class... A>
	static void bind_method(vp_method_name, F, A...) {}
	template <class... A>
	static void bind_vararg_method(A...) {}
	template <class T>
	static void register_class() {}
};

#define GDCLASS SFW_OBJECT
#define VARIANT_ENUM_CAST(...)
#define BIND_ENUM_CONSTANT(m_constant) vp_constant(#m_constant, (long long)(m_constant))
#define BIND_CONSTANT(m_constant) vp_constant(#m_constant, (long long)(m_constant))
#define D_METHOD(...) vp_method(__VA_ARGS__)
#define PropertyInfo(...) #__VA_ARGS__
#define ADD_PROPERTY(...) vp_property(__VA_ARGS__)
#define ADD_PROPERTYI(...) vp_property(__VA_ARGS__)
#define ADD_GROUP(a, b)
#define PLOG_MSG LOG_MSG
#define PLOG_TRACE LOG_TRACE
#define PLOG_ERR LOG_ERR

#endif
