"""The reference model: an ordered forest kept in plain Python, mutated by the documented meaning of each operation."""


class RNode:
    __slots__ = ("pk", "parent", "children", "data", "cls")

    def __init__(self, pk, data=None, cls=None):
        self.pk = pk
        self.parent = None
        self.children = []
        self.data = data or {}
        self.cls = cls

    def index(self):
        return self.parent.children.index(self)

    @property
    def depth(self):
        d, n = 0, self
        while n.parent is not None:
            d += 1
            n = n.parent
        return d

    def walk(self):
        """This node and its descendants, depth first."""
        out, stack = [], [self]
        while stack:
            n = stack.pop()
            out.append(n)
            stack.extend(reversed(n.children))
        return out

    def descendants(self):
        return self.walk()[1:]

    def ancestors(self):
        out, n = [], self.parent
        while n is not None and n.parent is not None:
            out.append(n)
            n = n.parent
        return out[::-1]

    def height(self):
        h, level = 0, [self]
        while level:
            h += 1
            level = [c for n in level for c in n.children]
        return h

    def is_under(self, other):
        n = self.parent
        while n is not None:
            if n is other:
                return True
            n = n.parent
        return False


class Forest:
    def __init__(self):
        self.top = RNode(None)
        self.nodes = {}

    def __len__(self):
        return len(self.nodes)

    def __getitem__(self, pk):
        return self.nodes[pk]

    def all(self):
        return self.top.descendants()

    def roots(self):
        return self.top.children

    def insert(self, pk, parent, index, data=None, cls=None):
        n = RNode(pk, dict(data or {}), cls)
        n.parent = parent or self.top
        n.parent.children.insert(index, n)
        self.nodes[pk] = n
        return n

    def place(self, node, parent, before=None):
        """Detach `node` and put it under `parent` just before the node `before` (None: as the last child)."""
        parent = parent or self.top
        node.parent.children.remove(node)
        if before is None:
            parent.children.append(node)
        else:
            parent.children.insert(parent.children.index(before), node)
        node.parent = parent

    def remove(self, nodes):
        gone = set()
        for n in nodes:
            if n.pk in gone:
                continue
            gone.update(d.pk for d in n.walk())
        for pk in gone:
            n = self.nodes[pk]
            if n.parent.pk not in gone:
                n.parent.children.remove(n)
        for pk in gone:
            del self.nodes[pk]
        return gone

    def structure(self):
        """{parent pk or None: [child pks in order]} without empty lists."""
        out = {}
        for n in [self.top] + self.all():
            if n.children:
                out[n.pk] = [c.pk for c in n.children]
        return out

    def shape(self):
        """A pk-free picture of the forest, to count distinct shapes."""

        out, stack = ["("], [iter(self.top.children)]
        while stack:
            n = next(stack[-1], None)
            if n is None:
                out.append(")")
                stack.pop()
            else:
                out.append("(")
                stack.append(iter(n.children))
        return "".join(out)

    def copy(self):
        f = Forest()
        for n in self.all():
            f.insert(n.pk, f.nodes[n.parent.pk] if n.parent.pk is not None else None, 10**9, n.data, n.cls)
        return f


def sort_key(data, order):
    """A comparable key for node_order_by (numeric fields may be descending, text fields must be ascending)."""
    out = []
    for f in order:
        if f.startswith("-"):
            out.append(-data[f[1:]])
        else:
            out.append(data[f])
    return tuple(out)
