"""Tree models used by the monitors: every implementation, several configurations of each."""

import os
import uuid

from django.db import models
from django.db.models.functions import Upper

from treebeard.al_tree import AL_Node, AL_NodeManager
from treebeard.mp_tree import MP_Node, MP_NodeManager, MP_NodeQuerySet
from treebeard.ns_tree import NS_Node, NS_NodeManager, NS_NodeQuerySet

PSQL = os.environ.get("TBMON_DB", "sqlite") == "psql"


class Tag(models.Model):
    label = models.CharField(max_length=50)

    def __str__(self):
        return self.label


class Payload(models.Model):
    name = models.CharField(max_length=200)
    note = models.TextField(default="", blank=True)

    truth = True

    def __str__(self):
        return self.name

    def __bool__(self):
        return Payload.truth

    class Meta:
        abstract = True


class SortPayload(Payload):
    val1 = models.IntegerField(default=0)
    val2 = models.IntegerField(default=0)

    class Meta:
        abstract = True


class NullPayload(Payload):
    """Ordering fields that may be NULL."""

    val1 = models.IntegerField(null=True)
    val2 = models.IntegerField(null=True)

    class Meta:
        abstract = True


class RelPayload(Payload):
    tag = models.ForeignKey(Tag, null=True, blank=True, on_delete=models.SET_NULL, related_name="+")
    tags = models.ManyToManyField(Tag, blank=True, related_name="+")

    class Meta:
        abstract = True


ORDER = ["val1", "-val2", "name"]


def parent_fk():
    return models.ForeignKey("self", related_name="children_set", null=True, db_index=True, on_delete=models.CASCADE)


# ---------------------------------------------------------------- adjacency list
class AL_N(AL_Node, Payload):
    parent = parent_fk()
    sib_order = models.PositiveIntegerField()


class AL_U(AL_Node, Payload):
    uid = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)
    parent = parent_fk()
    sib_order = models.PositiveIntegerField()


class AL_S(AL_Node, SortPayload):
    node_order_by = ORDER
    parent = parent_fk()


class AL_R(AL_Node, RelPayload):
    parent = parent_fk()
    sib_order = models.PositiveIntegerField()


class AL_I(AL_N):
    extra = models.CharField(max_length=50, default="")


class AL_P(AL_N):
    class Meta:
        proxy = True


class AL_II(AL_I):
    extra2 = models.CharField(max_length=50, default="", blank=True)


class AL_PP(AL_P):
    class Meta:
        proxy = True


class AL_IP(AL_I):
    class Meta:
        proxy = True


# ---------------------------------------------------------------- materialized path
class MP_N(MP_Node, Payload):
    """Default configuration."""


class MP_1(MP_Node, Payload):
    """One base-36 character per step: 35 children per node."""

    steplen = 1


class MP_2(MP_Node, Payload):
    """Two base-6 characters per step: carries are frequent, 35 children per node."""

    steplen = 2
    alphabet = "012345"


class MP_D(MP_Node, Payload):
    """Tiny capacity: 4 children per node, depth 5."""

    steplen = 1
    alphabet = "01234"
    path = models.CharField(max_length=5, unique=True)


class MP_DS(MP_Node, SortPayload):
    """Tiny capacity, sorted."""

    steplen = 1
    alphabet = "01234"
    node_order_by = ORDER
    path = models.CharField(max_length=5, unique=True)


class MP_O(MP_Node, Payload):
    """max_length is not a multiple of steplen: two levels, 8 nodes each."""

    steplen = 2
    alphabet = "012"
    path = models.CharField(max_length=5, unique=True)


class MP_X(MP_Node, Payload):
    """Alphabet (in byte order) holding the characters that are special in LIKE patterns."""

    steplen = 2
    alphabet = "!%+05AZ\\_"


class MP_U(MP_Node, Payload):
    uid = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)
    steplen = 3
    alphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


class MP_S(MP_Node, SortPayload):
    steplen = 2
    node_order_by = ORDER


class MP_R(MP_Node, RelPayload):
    steplen = 2


class MP_I(MP_N):
    extra = models.CharField(max_length=50, default="")


class MP_IS(MP_S):
    extra = models.CharField(max_length=50, default="")


class MP_P(MP_N):
    class Meta:
        proxy = True


class MP_II(MP_I):
    extra2 = models.CharField(max_length=50, default="", blank=True)


class MP_PP(MP_P):
    class Meta:
        proxy = True


class MP_IP(MP_I):
    class Meta:
        proxy = True


# ---------------------------------------------------------------- nested sets
class NS_N(NS_Node, Payload):
    pass


class NS_U(NS_Node, Payload):
    uid = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)


class NS_S(NS_Node, SortPayload):
    node_order_by = ORDER


class NS_R(NS_Node, RelPayload):
    pass


class NS_I(NS_N):
    extra = models.CharField(max_length=50, default="")


class NS_P(NS_N):
    class Meta:
        proxy = True


class NS_II(NS_I):
    extra2 = models.CharField(max_length=50, default="", blank=True)


class NS_PP(NS_P):
    class Meta:
        proxy = True


class NS_IP(NS_I):
    class Meta:
        proxy = True


# ---------------------------------------------------------------- dependents of tree nodes
class _Dep(models.Model):
    label = models.CharField(max_length=50, default="")

    class Meta:
        abstract = True


def _make_dep(target, kind, on_delete):
    nullable = on_delete is models.SET_NULL
    attrs = {
        "__module__": __name__,
        "node": models.ForeignKey(target, null=nullable, on_delete=on_delete, related_name=f"{kind}_set"),
    }
    return type(f"{target.__name__}_{kind}", (_Dep,), attrs)


DEPS = {}


def _add_deps(target):
    DEPS[target] = {
        "casc": _make_dep(target, "casc", models.CASCADE),
        "null": _make_dep(target, "null", models.SET_NULL),
        "prot": _make_dep(target, "prot", models.PROTECT),
    }


# ---------------------------------------------------------------- managers and querysets of one's own
class _OwnQuerySet:
    def noted(self):
        return self.exclude(note="")


class _Joins:
    """Relations and an expression with every node."""

    own = None  # the queryset class

    def get_queryset(self):
        qs = super().get_queryset()
        if self.own:
            qs = self.own(self.model, using=self._db).order_by(*qs.query.order_by)
        return qs.select_related("tag").prefetch_related("tags").annotate(upper=Upper("name"))


class _Lean:
    """Only what a list of nodes shows, the rest on demand."""

    def get_queryset(self):
        return super().get_queryset().only("name", "val1").annotate(
            tagged=models.Exists(Tag.objects.filter(label=models.OuterRef("note")))
        )


def _own_managers(manager, queryset=None):
    own = queryset and type("Own" + queryset.__name__, (_OwnQuerySet, queryset), {"__module__": __name__})
    if own:
        globals()[own.__name__] = own  # for pickle
    joins = type("Joins" + manager.__name__, (_Joins, manager), {"__module__": __name__, "own": own})
    return joins, type("Lean" + manager.__name__, (_Lean, manager), {"__module__": __name__})


AL_Joins, AL_Lean = _own_managers(AL_NodeManager)
MP_Joins, MP_Lean = _own_managers(MP_NodeManager, MP_NodeQuerySet)
NS_Joins, NS_Lean = _own_managers(NS_NodeManager, NS_NodeQuerySet)


class _Scoped:
    """Part of the nodes."""

    def get_queryset(self):
        return super().get_queryset().exclude(note__endswith="7")

    def get_children(self, node):
        return super().get_children(node).exclude(note__endswith="3")


class AL_W(AL_Node, Payload):
    parent = parent_fk()
    sib_order = models.PositiveIntegerField()
    some = type("ScopedAL", (_Scoped, AL_NodeManager), {"__module__": __name__})()
    objects = AL_NodeManager()


class MP_W(MP_Node, Payload):
    some = type("ScopedMP", (_Scoped, MP_NodeManager), {"__module__": __name__})()
    objects = MP_NodeManager()


class NS_W(NS_Node, Payload):
    some = type("ScopedNS", (_Scoped, NS_NodeManager), {"__module__": __name__})()
    objects = NS_NodeManager()


class AL_Z(AL_Node, NullPayload):
    node_order_by = ORDER
    parent = parent_fk()


class MP_Z(MP_Node, NullPayload):
    node_order_by = ORDER


class NS_Z(NS_Node, NullPayload):
    node_order_by = ORDER


class AL_M(AL_Node, RelPayload):
    parent = parent_fk()
    sib_order = models.PositiveIntegerField()
    objects = AL_Joins()


class AL_MS(AL_Node, SortPayload):
    node_order_by = ORDER
    parent = parent_fk()
    objects = AL_Lean()


class MP_M(MP_Node, RelPayload):
    objects = MP_Joins()


class MP_MS(MP_Node, SortPayload):
    node_order_by = ORDER
    objects = MP_Lean()


class NS_M(NS_Node, RelPayload):
    objects = NS_Joins()


class NS_MS(NS_Node, SortPayload):
    node_order_by = ORDER
    objects = NS_Lean()


if PSQL:
    from treebeard.ltree import LT_Node, LT_NodeManager, LT_NodeQuerySet

    LT_Joins, LT_Lean = _own_managers(LT_NodeManager, LT_NodeQuerySet)

    class LT_W(LT_Node, Payload):
        some = type("ScopedLT", (_Scoped, LT_NodeManager), {"__module__": __name__})()
        objects = LT_NodeManager()

    class LT_Z(LT_Node, NullPayload):
        node_order_by = ORDER

    class LT_M(LT_Node, RelPayload):
        objects = LT_Joins()

    class LT_MS(LT_Node, SortPayload):
        node_order_by = ORDER
        objects = LT_Lean()

    class MP_62(MP_Node, Payload):
        """The alphabet the documentation recommends for PostgreSQL."""

        steplen = 1
        alphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

    class LT_N(LT_Node, Payload):
        pass

    class LT_U(LT_Node, Payload):
        uid = models.UUIDField(primary_key=True, default=uuid.uuid4, editable=False)

    class LT_S(LT_Node, SortPayload):
        node_order_by = ORDER

    class LT_R(LT_Node, RelPayload):
        pass

    class LT_I(LT_N):
        extra = models.CharField(max_length=50, default="")

        class Meta:
            constraints = []

    class LT_IS(LT_S):
        extra = models.CharField(max_length=50, default="")

        class Meta:
            constraints = []

    class LT_P(LT_N):
        class Meta:
            proxy = True


    class LT_II(LT_I):
        extra2 = models.CharField(max_length=50, default="", blank=True)

        class Meta:
            constraints = []


    class LT_PP(LT_P):
        class Meta:
            proxy = True


    class LT_IP(LT_I):
        class Meta:
            proxy = True

    _add_deps(LT_N)

for _m in (AL_N, MP_N, NS_N):
    _add_deps(_m)


# ---------------------------------------------------------------- odd but legal
class _Odd(Payload):
    """A primary key and columns of other names, an `id` that isn't the key, an ordering of its own."""

    key = models.BigAutoField(primary_key=True, db_column="from")
    id = models.CharField(max_length=5, default="1", blank=True, db_column="where")

    class Meta:
        abstract = True
        ordering = ["-note", "name"]


class _AL_Odd(AL_Node, _Odd):
    parent = models.ForeignKey(
        "self", related_name="+", null=True, blank=True, db_index=False, on_delete=models.CASCADE, db_column="order"
    )

    class Meta(_Odd.Meta):
        abstract = True


class _MP_Odd(MP_Node, _Odd):
    path = models.CharField(max_length=160, unique=True, db_column="order")
    depth = models.PositiveIntegerField(db_column="group by")
    numchild = models.PositiveIntegerField(default=0, db_column="NumChild")

    class Meta(_Odd.Meta):
        abstract = True


class _NS_Odd(NS_Node, _Odd):
    lft = models.PositiveIntegerField(db_index=True, db_column="order")
    rgt = models.PositiveIntegerField(db_index=True, db_column="group by")
    tree_id = models.PositiveIntegerField(db_index=True, db_column="Tree")
    depth = models.PositiveIntegerField(db_index=True, db_column="left")

    class Meta(_Odd.Meta):
        abstract = True


class AL_Q(_AL_Odd):
    sib_order = models.PositiveIntegerField(db_column="group by")

    class Meta(_AL_Odd.Meta):
        db_table = "vapp al-q select"


class AL_QS(_AL_Odd):
    node_order_by = ["name", "note"]

    class Meta(_AL_Odd.Meta):
        db_table = "vapp al-qs select"


class MP_Q(_MP_Odd):
    class Meta(_MP_Odd.Meta):
        db_table = "vapp mp-q select"


class MP_QS(_MP_Odd):
    node_order_by = ["name", "note"]

    class Meta(_MP_Odd.Meta):
        db_table = "vapp mp-qs select"


class NS_Q(_NS_Odd):
    class Meta(_NS_Odd.Meta):
        db_table = "vapp ns-q select"


class NS_QS(_NS_Odd):
    node_order_by = ["name", "note"]

    class Meta(_NS_Odd.Meta):
        db_table = "vapp ns-qs select"


if PSQL:
    from treebeard.ltree.fields import PathField

    class _LT_Odd(LT_Node, _Odd):
        path = PathField(db_column="order")

        class Meta(_Odd.Meta):
            abstract = True

    class LT_Q(_LT_Odd):
        class Meta(_LT_Odd.Meta):
            db_table = "vapp lt-q select"
            constraints = [
                models.UniqueConstraint(name="vapp lt-q path", fields=["path"], deferrable=models.Deferrable.DEFERRED)
            ]

    class LT_QS(_LT_Odd):
        node_order_by = ["name", "note"]

        class Meta(_LT_Odd.Meta):
            db_table = "vapp lt-qs select"
            constraints = [
                models.UniqueConstraint(name="vapp lt-qs path", fields=["path"], deferrable=models.Deferrable.DEFERRED)
            ]


# ---------------------------------------------------------------- text keys, for the pages that show them
class _Code(Payload):
    code = models.CharField(max_length=100, primary_key=True)

    class Meta:
        abstract = True


class AL_C(AL_Node, _Code):
    parent = parent_fk()
    sib_order = models.PositiveIntegerField()


class MP_C(MP_Node, _Code):
    pass


class NS_C(NS_Node, _Code):
    pass


if PSQL:

    class LT_C(LT_Node, _Code):
        pass


class Owner(models.Model):
    """A model with a foreign key to a tree, for the admin and for choice fields."""

    node = models.ForeignKey(MP_N, null=True, on_delete=models.CASCADE)
