

@events('writeModule','writeArgs','writeParams','addTextNode','newChild','writeBuildable','writeConnection','writeNetwork','save','newRootNode')
@target('pybrain.tools.customxml.networkwriter.NetworkWriter')
class NetworkWriter:
    @staticmethod
    def appendToFile(net, filename):
        w = NetworkWriter(filename, newfile=False)
        netroot = w.newRootNode('Network')
        w.writeNetwork(net, netroot)
        w.save()

    @staticmethod
    def writeToFile(net, filename):
        w = NetworkWriter(filename, newfile=True)
        netroot = w.newRootNode('Network')
        w.writeNetwork(net, netroot)
        w.save()

    def writeNetwork(self, net, netroot):
        netroot.setAttribute('name', net.name)
        netroot.setAttribute('class', canonicClassString(net))
        if net.argdict:
            self.writeArgs(netroot, net.argdict)
        mods = self.newChild(netroot, 'Modules')
        for im in net.inmodules:
            self.writeModule(mods, im, True, im in net.outmodules)
        for om in net.outmodules:
            if om not in net.inmodules:
                self.writeModule(mods, om, False, True)
        for m in net.modulesSorted:
            if m not in net.inmodules and m not in net.outmodules:
                self.writeModule(mods, m, False, False)
        if len(net.motherconnections) > 0:
            mothers = self.newChild(netroot, 'MotherConnections')
            for m in net.motherconnections:
                self.writeBuildable(mothers, m)
        conns = self.newChild(netroot, 'Connections')
        for m in net.modulesSorted:
            for c in net.connections[m]:
                self.writeConnection(conns, c, False)
        if hasattr(net, 'recurrentConns'):
            for c in net.recurrentConns:
                self.writeConnection(conns, c, True)

    def writeModule(self, rootnode, m, inmodule, outmodule):
        if isinstance(m, Network):
            mnode = self.newChild(rootnode, 'Network')
            self.writeNetwork(m, mnode)
        else:
            mnode = self.writeBuildable(rootnode, m)
        if inmodule:
            mnode.setAttribute('inmodule', 'True')
        if outmodule:
            mnode.setAttribute('outmodule', 'True')

    def writeConnection(self, rootnode, c, recurrent):
        mnode = self.writeBuildable(rootnode, c)
        if recurrent:
            mnode.setAttribute('recurrent', 'True')

    def writeBuildable(self, rootnode, m):
        mname = m.__class__.__name__
        mnode = self.newChild(rootnode, mname)
        mnode.setAttribute('name', m.name)
        mnode.setAttribute('class', canonicClassString(m))
        if m.argdict:
            self.writeArgs(mnode, m.argdict)
        if m.paramdim > 0 and (not isinstance(m, SharedConnection)):
            self.writeParams(mnode, m.params)
        return mnode

    def writeArgs(self, node, argdict):
        for name, val in list(argdict.items()):
            if val != None:
                tmp = self.newChild(node, name)
                if isclass(val):
                    s = canonicClassString(val)
                else:
                    s = getattr(val, 'name', repr(val))
                tmp.setAttribute('val', s)

    def writeParams(self, node, params):
        pnode = self.newChild(node, 'Parameters')
        self.addTextNode(pnode, str(list(params)))


@events('readParams')
@target('pybrain.tools.customxml.networkreader.NetworkReader')
class NetworkReader:
    def __init__(self, filename, newfile):
        XMLHandling.__init__(self, filename, newfile)
        self.mothers = {}
        self.modules = {}

    @staticmethod
    def readFrom(filename, name=None, index=0):
        r = NetworkReader(filename, newfile=False)
        if name:
            netroot = r.findNamedNode('Network', name)
        else:
            netroot = r.findNode('Network', index)
        return r.readNetwork(netroot)

    def readNetwork(self, node):
        import pybrain.structure.networks.custom
        nclass = eval(str(node.getAttribute('class')))
        argdict = self.readArgs(node)
        n = nclass(**argdict)
        n.name = node.getAttribute('name')
        for mnode in self.getChildrenOf(self.getChild(node, 'Modules')):
            m, inmodule, outmodule = self.readModule(mnode)
            if inmodule:
                n.addInputModule(m)
            if outmodule:
                n.addOutputModule(m)
            if not inmodule and (not outmodule):
                n.addModule(m)
        mconns = self.getChild(node, 'MotherConnections')
        if mconns:
            for mcnode in self.getChildrenOf(mconns):
                m = self.readBuildable(mcnode)
                self.mothers[m.name] = m
        for cnode in self.getChildrenOf(self.getChild(node, 'Connections')):
            c, recurrent = self.readConnection(cnode)
            if recurrent:
                n.addRecurrentConnection(c)
            else:
                n.addConnection(c)
        n.sortModules()
        return n

    def readModule(self, mnode):
        if mnode.nodeName == 'Network':
            m = self.readNetwork(mnode)
        else:
            m = self.readBuildable(mnode)
        self.modules[m.name] = m
        inmodule = mnode.hasAttribute('inmodule')
        outmodule = mnode.hasAttribute('outmodule')
        return (m, inmodule, outmodule)

    def readConnection(self, cnode):
        c = self.readBuildable(cnode)
        recurrent = cnode.hasAttribute('recurrent')
        return (c, recurrent)

    def readBuildable(self, node):
        mclass = node.getAttribute('class')
        argdict = self.readArgs(node)
        try:
            m = eval(mclass)(**argdict)
        except:
            print(('Could not construct', mclass))
            print(('with arguments:', argdict))
            return None
        m.name = node.getAttribute('name')
        self.readParams(node, m)
        return m

    def readArgs(self, node):
        res = {}
        for c in self.getChildrenOf(node):
            val = c.getAttribute('val')
            if val in self.modules:
                res[str(c.nodeName)] = self.modules[val]
            elif val in self.mothers:
                res[str(c.nodeName)] = self.mothers[val]
            elif val != '':
                res[str(c.nodeName)] = eval(val)
        return res

    def readParams(self, node, m):
        pnode = self.getChild(node, 'Parameters')
        if pnode:
            params = eval(pnode.firstChild.data.strip())
            m._setParameters(params)


@events('addTextNode','newChild','writeDoubles','writeAttrDict')
@target('pybrain.tools.customxml.handling.XMLHandling')
class XMLHandling:
    def __init__(self, filename, newfile):
        self.filename = filename
        if not newfile:
            self.dom = parse(filename)
            if self.dom.firstChild.nodeName != 'PyBrain':
                raise Exception('Not a correct PyBrain XML file')
        else:
            domimpl = getDOMImplementation()
            self.dom = domimpl.createDocument(None, 'PyBrain', None)
        self.root = self.dom.documentElement

    def save(self):
        file = open(self.filename, 'w')
        file.write(self.dom.toprettyxml())
        file.close()

    def readAttrDict(self, node, transform=None):
        args = {}
        for name, val in list(node.attributes.items()):
            name = str(name)
            if transform != None:
                args[name] = transform(val, name)
            else:
                args[name] = val
        return args

    def writeAttrDict(self, node, adict, transform=None):
        for name, val in list(adict.items()):
            if val != None:
                if transform != None:
                    node.setAttribute(name, transform(val, name))
                else:
                    node.setAttribute(name, val)

    def newRootNode(self, name):
        return self.newChild(self.root, name)

    def newChild(self, node, name):
        elem = self.dom.createElement(name)
        node.appendChild(elem)
        return elem

    def addTextNode(self, node, text):
        tmp = self.dom.createTextNode(text)
        node.appendChild(tmp)

    def getChild(self, node, name):
        for n in node.childNodes:
            if name and n.nodeName == name:
                return n

    def getChildrenOf(self, node):
        return [x for x in node.childNodes if x.nodeType == x.ELEMENT_NODE]

    def findNode(self, name, index=0, root=None):
        if root == None:
            root = self.root
        for n in root.childNodes:
            if n.nodeName == name:
                if index == 0:
                    return n
                index -= 1
        return None

    def findNamedNode(self, name, nameattr, root=None):
        if root == None:
            root = self.root
        for n in root.childNodes:
            if n.nodeName == name:
                if n.attributes['name']:
                    if n.attributes['name'].value == nameattr:
                        return n
        return None

    def writeDoubles(self, node, l, precision=6):
        self.addTextNode(node, fListToString(l, precision)[1:-1].replace(',', ' '))

    def writeMatrix(self, node, m, precision=6):
        for i, row in enumerate(m):
            r = self.newChild(node, 'row')
            self.writeAttrDict(r, {'number': str(i)})
            self.writeDoubles(r, row, precision)

    def readDoubles(self, node):
        dstrings = node.firstChild.data.split()
        return [float(s) for s in dstrings]

    def readMatrix(self, node):
        rows = []
        for c in self.getChildrenOf(node):
            rows.append(self.readDoubles(c))
        if len(rows) == 0:
            return None
        res = zeros((len(rows), len(rows[0])))
        for i, r in enumerate(rows):
            res[i] = r
        return res


@target('pybrain.utilities.setAllArgs')
def setAllArgs(obj, argdict):
    xmlstore = isinstance(obj, XMLBuildable)
    for n in list(argdict.keys()):
        if hasattr(obj, n):
            setattr(obj, n, argdict[n])
            if xmlstore:
                obj.argdict[n] = argdict[n]
        else:
            print(('Warning: parameter name', n, 'not found!'))
            if xmlstore:
                if not hasattr(obj, '_unknown_argdict'):
                    obj._unknown_argdict = {}
                obj._unknown_argdict[n] = argdict[n]


@target('pybrain.utilities.canonicClassString')
def canonicClassString(x):
    if isinstance(x, object):
        return repr(x.__class__).split("'")[1]
    else:
        return repr(x.__class__)


@target('pybrain.utilities.XMLBuildable')
class XMLBuildable:
    def setArgs(self, **argdict):
        if not self.argdict:
            self.argdict = {}
        setAllArgs(self, argdict)


@target('pybrain.structure.connections.connection.Connection')
class Connection:
    def __init__(self, inmod, outmod, name=None, inSliceFrom=0, inSliceTo=None, outSliceFrom=0, outSliceTo=None):
        self._name = name
        self.inSliceFrom = inSliceFrom
        self.outSliceFrom = outSliceFrom
        if inSliceTo is not None:
            self.inSliceTo = inSliceTo
        else:
            self.inSliceTo = inmod.outdim
        if outSliceTo is not None:
            self.outSliceTo = outSliceTo
        else:
            self.outSliceTo = outmod.indim
        if isinstance(inmod, ModuleSlice):
            self.inmod = inmod.base
            self.inSliceFrom += inmod.outOffset
            self.inSliceTo += inmod.outOffset
        else:
            self.inmod = inmod
        if isinstance(outmod, ModuleSlice):
            self.outmod = outmod.base
            self.outSliceFrom += outmod.inOffset
            self.outSliceTo += outmod.inOffset
        else:
            self.outmod = outmod
        self.indim = self.inSliceTo - self.inSliceFrom
        self.outdim = self.outSliceTo - self.outSliceFrom
        self.setArgs(inmod=self.inmod, outmod=self.outmod)
        if self.inSliceFrom > 0:
            self.setArgs(inSliceFrom=self.inSliceFrom)
        if self.outSliceFrom > 0:
            self.setArgs(outSliceFrom=self.outSliceFrom)
        if self.inSliceTo < self.inmod.outdim:
            self.setArgs(inSliceTo=self.inSliceTo)
        if self.outSliceTo < self.outmod.indim:
            self.setArgs(outSliceTo=self.outSliceTo)


@target('pybrain.structure.connections.shared.SharedConnection')
class SharedConnection:
    def __init__(self, mother, *args, **kwargs):
        Connection.__init__(self, *args, **kwargs)
        self._replaceParamsByMother(mother)


@target('pybrain.structure.connections.shared.MotherConnection')
class MotherConnection:
    def __init__(self, nbparams, **args):
        assert nbparams > 0
        ParameterContainer.__init__(self, nbparams, **args)
        self.setArgs(nbparams=self.paramdim)


@target('pybrain.structure.connections.permutation.PermutationConnection')
class PermutationConnection:
    def __init__(self, inmod, outmod, permutation, blocksize, *args, **kwargs):
        Connection.__init__(self, inmod, outmod, *args, **kwargs)
        if self.indim != self.outdim:
            raise ValueError('Indim (%i) does not equal outdim (%i)' % (self.indim, self.outdim))
        if len(permutation) * blocksize != self.indim:
            raise ValueError('Permutation has wrong size: should be %i but is %i.' % (self.indim // blocksize, len(permutation)))
        self.permutation = array(permutation)
        self.invpermutation = argsort(self.permutation)
        self.blocksize = blocksize
        self.argdict['permutation'] = self.permutation.tolist()
        self.argdict['blocksize'] = blocksize


@target('pybrain.structure.modules.neuronlayer.NeuronLayer')
class NeuronLayer:
    def __init__(self, dim, name=None):
        Module.__init__(self, dim, dim, name=name)
        self.setArgs(dim=dim)


@target('pybrain.structure.modules.lstm.LSTMLayer')
class LSTMLayer:
    def __init__(self, dim, peepholes=False, name=None):
        self.setArgs(dim=dim, peepholes=peepholes)
        self.bufferlist = [('ingate', dim), ('outgate', dim), ('forgetgate', dim), ('ingatex', dim), ('outgatex', dim), ('forgetgatex', dim), ('state', dim), ('ingateError', dim), ('outgateError', dim), ('forgetgateError', dim), ('stateError', dim)]
        Module.__init__(self, 4 * dim, dim, name)
        if self.peepholes:
            ParameterContainer.__init__(self, dim * 3)
            self._setParameters(self.params)
            self._setDerivatives(self.derivs)


@target('pybrain.structure.modules.module.Module')
class Module:
    def __init__(self, indim, outdim, name=None, **args):
        self.setArgs(name=name, **args)
        self.bufferlist = [] if not self.bufferlist else self.bufferlist
        self.bufferlist += [('inputbuffer', indim), ('inputerror', indim), ('outputbuffer', outdim), ('outputerror', outdim)]
        self.indim = indim
        self.outdim = outdim
        self._resetBuffers()


@target('pybrain.structure.parametercontainer.ParameterContainer')
class ParameterContainer:
    def __init__(self, paramdim=0, **args):
        self.setArgs(**args)
        self.paramdim = paramdim
        if paramdim > 0:
            self._params = zeros(self.paramdim)
            from pybrain.structure.modules.module import Module
            from pybrain.structure.connections.connection import Connection
            if isinstance(self, Module) or isinstance(self, Connection):
                self.hasDerivatives = True
            if self.hasDerivatives:
                self._derivs = zeros(self.paramdim)
            self.randomize()
