"""A plotting backend under the simulator's control: figures are drawn in memory, displaying them is recorded and may fail."""

from matplotlib.backend_bases import FigureManagerBase
from matplotlib.backends.backend_agg import FigureCanvasAgg


class Display:
    shown = []
    fail = None            # an exception to raise when a figure is displayed


class FigureManager(FigureManagerBase):
    def show(self):
        if Display.fail is not None:
            ex, Display.fail = Display.fail, None
            raise ex
        Display.shown.append(self.canvas.figure)

    @classmethod
    def start_main_loop(cls):
        Display.shown.append('blocked')


class FigureCanvas(FigureCanvasAgg):
    manager_class = FigureManager
