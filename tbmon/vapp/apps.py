from django.apps import AppConfig


class VappConfig(AppConfig):
    name = "tbmon.vapp"
    label = "vapp"
