"""Which specification decides which property, and what every verification assumes."""
import props_server
import props_io
import props_types
import props_more
import props_live

ALL = [f'C{i:02}' for i in range(1, 26)]


def spec_of(pid):
    for m in (props_server, props_io, props_types, props_more, props_live):
        if hasattr(m, pid):
            return getattr(m, pid)
    raise KeyError(pid)


ASSUMPTIONS = [
    'Logging is off or has no effect on the behaviour: the tracing macros are treated as doing nothing (their level test as false).',
    'Every loop has a termination measure and recursion is not accepted, but calls that block for ever, allocation failure, stack overflow and destructors are outside the contracts; a panic ends a path and unwinding is not followed.',
    'Calls the contracts name as trusted (std::io, std::thread, crossbeam-channel, serde, serde_json, lsp_types, tracing, formatting) do what the one-line contract in trusted_base says.',
    'What Deserialize impls decode is verified for the member-map form; of the positional (array) form serde also derives, only that it never panics.',
]
EXTRA = {}
