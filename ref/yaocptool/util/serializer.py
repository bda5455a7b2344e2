import concurrent.futures
import multiprocessing as mp
from typing import Union
from casadi import MX, SX, StringDeserializer, StringSerializer

class NewForkingPickler(mp.reduction.ForkingPickler):

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        _casadi_serializer = CasadiPicklerDepickler()

        def pickle_casadi(obj):
            s = _casadi_serializer.dumps(obj)
            return (_casadi_serializer.loads, (s, repr(obj)))
        self.dispatch_table.update({SX: pickle_casadi, MX: pickle_casadi})

class CasadiPicklerDepickler:
    serializer = StringSerializer()
    deserializer = StringDeserializer(serializer.encode())

    def __init__(self):
        self.__class__.serializer = StringSerializer()
        self.__class__.deserializer = StringDeserializer(self.__class__.serializer.encode())

    def dumps(self, var: Union[SX, MX]) -> str:
        try:
            self.serializer.pack(var)
        except Exception as e:
            print('failed to deserialize', e)
            raise e
        return self.serializer.encode()

    def loads(self, s: str, name: str='no name') -> Union[SX, MX]:
        try:
            self.deserializer.decode(s)
            var = self.deserializer.unpack()
        except Exception as e:
            print('failed to deserialize', name, e)
            raise e
        return var
mp.reduction.ForkingPickler = NewForkingPickler
if __name__ == '__main__':
    x = SX.sym('x')
    y = MX.sym('y')
    s = StringSerializer()
    s.pack(x)
    data1 = s.encode()
    s.reset()
    s.pack(y)
    data2 = s.encode()

    def printer(data):
        print(data)
        return data
    with concurrent.futures.ProcessPoolExecutor(2) as executor:
        futs = [executor.submit(printer, t) for t in [[1, x, x], [2, x, x]]]
        print([fut.result() for fut in futs])
