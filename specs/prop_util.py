"""C08 bounded strings, C09 results and errors, C10 bit helpers"""
from runner import Unit, Native
import util_spec as U

MODS = {'util': dict(src='util.cpp', keep=[r'^(u|re|rz|rp|rb|s64|s8|s2|s1|str)__'])}
STR_OPS = ['ctor', 'of_cstr', 'of_string', 'copy', 'assign', 'assign_cstr', 'plus_cstr', 'plus', 'length', 'empty', 'c_str', 'conv']


def get(pid):
    base = dict(modules=MODS)
    if pid == 'C08':
        return dict(base, units=[lambda t: [Unit('%s/%s' % (g, o), 'util', U.verify_str, (g, o)) for g in U.STRN for o in STR_OPS]],
                    natives=lambda t: [Native('strings', 'strings.cpp', secs=(4, 30))],
                    functions=['cler::EmbeddableString<N>::' + f for f in ('EmbeddableString()', 'EmbeddableString(const char*)', 'EmbeddableString(const std::string&)', 'EmbeddableString(const EmbeddableString&)', 'operator=', 'operator+(const char*)', 'operator+(const EmbeddableString&)', 'operator const char*', 'c_str', 'length', 'empty', 'append')],
                    assumptions=['limits N = 64 (default), 8, 2, 1; the code is the same template for other limits >= 1', 'texts are shorter than 2^40 characters', 'std::string text has no embedded terminator', 'strlen contract: requires a terminated text (checked), returns its length'])
    if pid == 'C09':
        return dict(base, units=[lambda t: [Unit('%s/%s/%s' % (g, k, o), 'util', U.verify_result, (g, k, o)) for g in ('re', 'rz', 'rp', 'rb') for k in ('value', 'error') for o in ('construct', 'copy', 'move', 'assign', 'massign')]
                                 + [Unit('is_fatal', 'util', U.verify_fatal), Unit('to_str', 'util', U.verify_text, ('to_str',)), Unit('error_to_cstring', 'util', U.verify_text, ('error_to_cstring',))]],
                    natives=lambda t: [Native('results', 'results.cpp', secs=(2, 10))],
                    functions=['cler::Result<T,Error>::' + f for f in ('Result(T)', 'Result(E)', 'copy/move constructor', 'copy/move assignment', 'is_ok', 'is_err', 'unwrap', 'unwrap_err')] + ['cler::is_fatal', 'cler::to_str', 'cler::error_to_cstring'],
                    assumptions=['value types Empty, bool, size_t and a 24-byte trivially copyable struct (proved); std::string and std::unique_ptr only in the native driver'])
    if pid == 'C10':
        return dict(base, units=[lambda t: [Unit(f, 'util', U.verify_pow2, (f,)) for f in ('floor2p2', 'ceil2p2', 'is_power_of_2')]],
                    natives=lambda t: [Native('bits', 'bits.cpp', secs=(2, 10))],
                    functions=['cler::floor2p2', 'cler::ceil2p2', 'cler::is_power_of_2'],
                    assumptions=['64-bit size_t', 'rounding up: arguments up to 2^63 (result representable)'])
    return None
