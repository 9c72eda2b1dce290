"""Routes the monitored tree models to a database that is not the default one."""


class Router:
    def db_for_read(self, model, **hints):
        return "other" if model._meta.app_label == "vapp" else None

    db_for_write = db_for_read

    def allow_relation(self, a, b, **hints):
        return True

    def allow_migrate(self, db, app_label, **hints):
        return True
