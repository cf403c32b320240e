import pickle


class Serializer:
    def serialize(self, obj):
        return pickle.dumps(obj)

    def deserialize(self, data):
        return pickle.loads(data)
