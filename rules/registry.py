RULES = {
    'C01': 'fcs:single_assignment',
    'C02': 'fcs:no_lost_wakeup',
    'C03': 'pool:tasks',
    'C04': 'pool:lifecycle',
    'C05': 'jsonrpc:write_framing',
    'C06': 'jsonrpc:read_framing',
    'C07': 'jsonrpc:shapes',
    'C08': 'jsonrpc:exclusive',
    'C09': 'lspfile:units',
    'C10': 'lspfile:edits',
    'C11': 'parser:grammar',
    'C12': 'parser:semantics',
    'C13': 'parser:memo',
    'C14': 'requests:client_requests',
    'C15': 'dispatch:responses',
    'C16': 'dispatch:lifecycle',
    'C17': 'host:host',
    'C18': 'preproc:conditionals',
    'C19': 'preproc:includes',
    'C20': 'ppexpr:expressions',
    'C21': 'lexing:lexer',
    'C22': 'server:panics',
    'C23': 'client:capabilities',
    'C24': 'files:authority',
    'C25': 'guards:guards',
    'C26': 'client:tells',
    'C27': 'process:native_fs',
    'C28': 'process:relay',
    'C29': 'lsif:dump',
    'C30': 'clientfs:client_fs',
    'C31': 'adapter:adapter', 'C32': 'adapter:wasm',
}
