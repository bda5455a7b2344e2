import copy
import itertools
import os
import pickle
import re
from dataclasses import dataclass
from typing import Dict, Iterable, List, Literal, Optional, Tuple, TypeVar, Union
import matplotlib.pyplot as plt
import pandas as pd
import seaborn
from casadi import DM, horzcat
from yaocptool.config import PLOT_INTERACTIVE
T = TypeVar('T', bound='DataSet')

@dataclass
class Entry:
    names: List[str]
    size: int
    time: DM = DM()
    values: DM = DM()
    plot_style: str = 'plot'

    @property
    def is_empty(self):
        return not len(self.names)

class DataSet:

    def __init__(self, name: str='dataset', plot_style='plot'):
        self.name = name
        self.plot_style = plot_style
        self.data: Dict[str, Entry] = {}

    def as_dataframe(self):
        df = None
        for entry_name, entry in self.data.items():
            if entry.is_empty:
                continue
            time = [float(t) for t in entry.time.nz]
            values = entry.values.T.full()
            names_tuples = [(entry_name, name) for name in entry.names]
            index = pd.MultiIndex.from_tuples(names_tuples)
            entry_df = pd.DataFrame(values, index=time, columns=index)
            df = pd.merge(df, entry_df, how='outer', left_index=True, right_index=True) if df is not None else entry_df
        df.index.name = 'time'
        return df

    def create_entry(self, entry: str, size: int, names: List[str]=None, plot_style: Union[Literal['plot'], Literal['step']]='plot'):
        if names is None:
            names = [entry + '_' + str(i) for i in range(size)]
        self.data[entry] = Entry(size=size, names=names, plot_style=plot_style)

    def get_entry(self, entry: str) -> Tuple[DM, DM]:
        return (self.data[entry].time, self.data[entry].values)

    def get_entry_names(self, entry: str) -> List[str]:
        return self.data[entry].names

    def get_entry_size(self, entry: str) -> int:
        return self.data[entry].size

    def insert_data(self, entry: str, time: Union[List[float], DM, float], value: DM):
        if isinstance(time, list):
            time = horzcat(*time)
        if isinstance(time, (float, int)):
            time = DM(time)
        if time.shape[1] != value.shape[1]:
            raise ValueError('Number of columns of "time" and "value" should be the same, time.shape={} and value.shape={}'.format(time.shape[1], value.shape))
        self.data[entry].values = horzcat(self.data[entry].values, value)
        self.data[entry].time = horzcat(self.data[entry].time, time)
        if self.data[entry].size is None:
            self.data['entry'].size = value.size1()

    def get_copy(self) -> 'DataSet':
        dataset_copy = copy.copy(self)
        dataset_copy.data = copy.deepcopy(self.data)
        return dataset_copy

    def extend(self: T, other_dataset: T):
        for entry in other_dataset.data:
            if self.get_entry_size(entry) != other_dataset.get_entry_size(entry):
                raise ValueError('The size of the same entry is different in the two datasets, {}!={}'.format(self.get_entry_size(entry), other_dataset.get_entry_size(entry)))
            if entry not in self.data:
                self.create_entry(entry, size=other_dataset.get_entry_size(entry), names=other_dataset.get_entry_names(entry))
            self.insert_data(entry, time=other_dataset.data[entry].time, value=other_dataset.data[entry].values)
        self.sort()

    def sort(self, entries: Iterable[str]=None):
        if entries is None:
            entries = self.data.keys()
        for entry in entries:
            entry_length = self.data[entry].time.shape[1]
            time = [self.data[entry].time[i] for i in range(entry_length)]
            values = [self.data[entry].values[:, i] for i in range(self.data[entry].values.shape[1])]
            time, values = (list(t) for t in zip(*sorted(zip(time, values), key=lambda point: float(point[0]))))
            self.data[entry].time = horzcat(*time)
            self.data[entry].values = horzcat(*values)

    def save(self, file_path: str):
        directory = os.path.abspath(os.path.dirname(file_path))
        if not os.path.exists(directory):
            os.makedirs(directory)
        with open(file_path, 'wb+') as f:
            pickle.dump(self, f)

    def _plot_entry(self, t_vector, data_vector, row, label='', plot_style='plot'):
        if plot_style not in ['plot', 'step']:
            raise ValueError('Plot style not recognized: "{}". Allowed : "plot" and "step"'.format(plot_style))
        if plot_style == 'plot':
            return seaborn.lineplot(x=t_vector.full().flatten(), y=data_vector[row, :].full().flatten(), label=label)
        if plot_style == 'step':
            return plt.step(t_vector.T, data_vector[row, :].T, label=label, where='post')
        raise ValueError('"plot_style" not recognized. Given {}, available: "step" or "plot"'.format(plot_style))

    def plot(self, *plot_list: Dict[str, Union[Literal['all'], Union[List[int], Union[str]]]], figures: Optional[List[plt.Figure]]=None, show: bool=True, exact: bool=False, use_tex: bool=False) -> List[plt.Figure]:
        if not plot_list:
            plot_list = ({'x': 'all'}, {'y': 'all'}, {'u': 'all'})
        if use_tex:
            seaborn.set(font_scale=1, rc={'text.usetex': True})
            seaborn.set_style('whitegrid')
        used_figures: List[plt.Figure] = []
        for k, entry_dict in enumerate(plot_list):
            fig = figures[k] if figures is not None and len(figures) < k else plt.figure(k)
            used_figures.append(fig)
            lines = []
            for entry in entry_dict:
                if entry not in self.data:
                    raise Exception(f"Entry '{entry}' not found in the dataset. Entries: {self.data.keys()}")
                indexes_or_names = entry_dict[entry]
                if isinstance(indexes_or_names, str):
                    indexes_or_names = list(range(self.data[entry].size))
                var_names = self.get_entry_names(entry)
                only_indices = [ind for ind in indexes_or_names if isinstance(ind, int)]
                regex_matced_names: List[str] = []
                if not exact:
                    for regex in indexes_or_names[:]:
                        if isinstance(regex, str):
                            matches = [v_name for v_name in var_names if re.match(regex, v_name)]
                            regex_matced_names.extend(matches)
                            if matches:
                                indexes_or_names.remove(regex)
                for item in itertools.chain((item for item in indexes_or_names if isinstance(item, str)), regex_matced_names):
                    only_indices.append(var_names.index(item))
                for ind in only_indices:
                    label = self.data[entry].names[ind]
                    if use_tex:
                        label = f'${label}$'
                    line = self._plot_entry(self.data[entry].time, self.data[entry].values, ind, label=label, plot_style=self.data[entry].plot_style)
                    lines.append(line)
            plt.grid()
            axes = fig.axes
            axes[0].ticklabel_format(useOffset=False)
            plt.legend()
        plt.interactive(PLOT_INTERACTIVE)
        if show:
            plt.show()
        return used_figures
