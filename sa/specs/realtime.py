"""Reference formulation of the OPC UA interface."""
import time
import casadi
import numpy as np
import asyncua.sync as opcua
import casadi.tools as ctools
from threading import Timer, Thread
from do_mpc.opcua._client import RTClient
from do_mpc.opcua._helper import Namespace, NamespaceEntry


# ------------------------------------------------------------------ namespace
def node_id(self, namespace_index):
    if namespace_index is None:
        raise Exception
    return 'ns=%s;s=%s' % (namespace_index, self.variable)


def nodes(self, nodename):
    return [e.get_node_id(self._namespace_index) for e in self.entry_list if e.objectnode == nodename]


def from_model(self, model, model_name):
    entries = []
    for var in ('aux', 'p', 'tvp', 'u', 'v', 'w', 'x', 'y', 'z'):
        for label in model[var].labels():
            if not label.startswith('[default,'):
                entries.append(NamespaceEntry(objectnode=var, variable=label))
    return Namespace(namespace_name=model_name, entry_list=entries)


def default(self, namespace_name):
    self.namespace = self.namespace_from_model(self.do_mpc_object.model, namespace_name)


def register(self, client):
    ns = client.client.namespace
    index = self.opcua_server.register_namespace(ns.namespace_name)
    self.object_node_dict = {}
    for e in ns.entry_list:
        if e.objectnode not in self.object_node_dict:
            self.object_node_dict[e.objectnode] = self.opcua_server.nodes.objects.add_object(index, e.objectnode)
        self.add_variable_to_node(e, index)
    client.client.add_namespace_url(index)


def variable(self, namespace_entry, namespace_url):
    name = f'{namespace_entry.objectnode}{namespace_entry.variable}'
    node = self.object_node_dict[namespace_entry.objectnode].add_variable(opcua.ua.NodeId(name, namespace_url), name, [0.0])
    node.set_writable()
    namespace_entry.variable = name


def index(self, url):
    self.namespace._namespace_index = url


# ------------------------------------------------------------------ server, client
def server(self, opts):
    self.name, self.address, self.port = opts.name, opts.address, opts.port
    try:
        self.opcua_server = opcua.Server()
    except RuntimeError:
        raise KeyboardInterrupt
    self.opcua_server.set_endpoint(opts.address)


def client(self, opts, namespace):
    self.server_address, self.port, self.name = opts.address, opts.port, opts.name
    self.namespace = namespace
    try:
        self.opcua_client = opcua.Client(opts.address)
    except RuntimeError:
        raise KeyboardInterrupt


def connect(self):
    self.opcua_client.connect()


def disconnect(self):
    self.opcua_client.disconnect()


def connect_client(self):
    self.client.connect()


def disconnect_client(self):
    self.client.disconnect()


def start_server(self):
    self.opcua_server.start()


def stop_server(self):
    self.opcua_server.stop()


def write(self, tag, dataVal):
    if type(dataVal) != list:
        raise Exception
    try:
        self.opcua_client.get_node(tag).set_value(dataVal)
    except ConnectionRefusedError:
        return False


def read(self, tag):
    try:
        value = self.opcua_client.get_node(tag).get_value()
    except ConnectionRefusedError:
        raise
    return value


# ------------------------------------------------------------------ real-time object
def new(self, do_mpc_object, clientOpts, namespace=None):
    self.do_mpc_object = do_mpc_object
    if namespace is None:
        self.get_default_namespace(clientOpts.name)
    else:
        self.namespace = namespace
    self.client = RTClient(clientOpts, self.namespace)
    self.cycle_time = clientOpts.timeunit * do_mpc_object.settings.t_step
    self.tagin, self.tagout = [], []
    self.is_running = False
    self.new_init = True
    self.async_fag = False


def set_write(self, tagout):
    self.tagout = tagout


def set_read(self, tagin):
    self.tagin = tagin


def step(self):
    self.write_to_tags(self.do_mpc_object.make_step(self.read_from_tags()))


def write_tags(self, data):
    if isinstance(data, ctools.structure3.DMStruct):
        values = data.cat.full().flatten()
    elif isinstance(data, ctools.DM):
        values = data.full().flatten()
    elif isinstance(data, np.ndarray):
        values = data.flatten()
    else:
        raise TypeError
    if values.size != len(self.tagout):
        raise Exception
    for i in range(len(self.tagout)):
        self.client.writeData(self.tagout[i], [values[i]])


def read_tags(self):
    return np.array([self.client.readData(t) for t in self.tagin]).reshape(-1, 1)


def run(self):
    if not self.async_fag:
        self.is_running = False
        self.async_step_start()
        self.make_step()


def start(self):
    if self.new_init:
        self.async_fag = False
        self.new_thread = Thread(target=self.make_step)
        self.new_thread.start()
        self.new_init = False
    if not self.is_running:
        self.cycle = time.time() + self.cycle_time
        self.thread = Timer(self.cycle - time.time(), self.async_run)
        self.thread.start()
        self.is_running = True


def stop(self):
    self.thread.cancel()
    self.is_running = False
    self.new_init = True
    self.async_fag = True
