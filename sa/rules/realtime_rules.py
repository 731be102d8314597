"""OPC UA interface."""
from . import prop
from .spec_rules import table, ASSUME

B, C, V, H, S = 'opcua._base.RTBase', 'opcua._client.RTClient', 'opcua._server.RTServer', 'opcua._helper.', 'realtime'


@prop('C27', 'Construction of the namespace, transfer of values and scheduling of steps compared with a reference.', ASSUME, floor=25)
def realtime(ctx, R, tier):
    R.use('namespace', 'one node per model element, registered under the node id handed out for it')
    table(ctx, R, [
        (H + 'NamespaceEntry', 'get_node_id', S, 'node_id', ['return', 'raises']),
        (H + 'Namespace', '__getitem__', S, 'nodes', ['return', 'raises']),
        (B, 'namespace_from_model', S, 'from_model', ['return', 'raises']),
        (B, 'get_default_namespace', S, 'default', ['attr namespace', 'setattrs', 'raises']),
        (V, 'namespace_from_client', S, 'register', ['attr object_node_dict', 'setattrs', 'calls register_namespace|add_object|add_variable_to_node|add_namespace_url', 'raises'], dict(noinline=('add_variable_to_node', 'add_namespace_url'))),
        (V, 'add_variable_to_node', S, 'variable', ['calls add_variable|set_writable', 'stores *', 'raises']),
        (C, 'add_namespace_url', S, 'index', ['stores *', 'setattrs', 'raises'])])
    R.use('transfer', 'values are read and written in the order of the tags, through the client, one element per tag')
    table(ctx, R, [
        (V, '__init__', S, 'server', ['attr opcua_server', 'attr name', 'attr address', 'attr port', 'calls set_endpoint']),
        (C, '__init__', S, 'client', ['attr ' + a for a in ('opcua_client', 'server_address', 'port', 'name', 'namespace')]),
        (C, 'writeData', S, 'write', ['return', 'calls get_node|set_value', 'raises']),
        (C, 'readData', S, 'read', ['return', 'calls get_node|get_value', 'raises']),
        (C, 'connect', S, 'connect', ['calls connect']),
        (C, 'disconnect', S, 'disconnect', ['calls disconnect']),
        (B, 'connect', S, 'connect_client', ['calls connect'], dict(noinline=('RTClient.connect',))),
        (B, 'disconnect', S, 'disconnect_client', ['calls disconnect'], dict(noinline=('RTClient.disconnect',))),
        (V, 'start', S, 'start_server', ['calls start|stop']),
        (V, 'stop', S, 'stop_server', ['calls start|stop']),
        (B, 'set_write_tags', S, 'set_write', ['setattrs', 'raises']),
        (B, 'set_read_tags', S, 'set_read', ['setattrs', 'raises']),
        (B, 'write_to_tags', S, 'write_tags', ['calls writeData', 'setattrs', 'raises'], dict(noinline=('writeData',), keep=('flatten',))),
        (B, 'read_from_tags', S, 'read_tags', ['return', 'setattrs', 'raises'], dict(keep=('reshape',), noinline=('readData',))),
        (B, 'make_step', S, 'step', ['calls write_to_tags|make_step|read_from_tags', 'setattrs', 'raises'], dict(noinline=('write_to_tags', 'read_from_tags')))])
    R.use('schedule', 'one step at once, one every cycle, none after stopping')
    table(ctx, R, [
        (B, '__init__', S, 'new', ['attr ' + a for a in ('do_mpc_object', 'namespace', 'cycle_time', 'client', 'tagin', 'tagout', 'is_running', 'new_init', 'async_fag')] + ['raises'], dict(keep=('RTClient',))),
        (B, 'async_run', S, 'run', ['setattrs', 'order .is_running|async_step_start|make_step', 'calls async_step_start|make_step', 'raises'], dict(noinline=('make_step', 'async_step_start'))),
        (B, 'async_step_start', S, 'start', ['setattrs', 'calls start|Thread|Timer|cancel', 'raises'], dict(noinline=('make_step', 'async_run'))),
        (B, 'async_step_stop', S, 'stop', ['setattrs', 'calls cancel', 'raises'])])
