def getcolorname2HSLdict() -> dict:
    return {'black': (0, 0, 0), 'blue': (240, 100, 38), 'green': (120, 100, 38), 'cyan': (180, 50, 50), 'red': (0, 100, 38), 'magenta': (300, 100, 38), 'brown': (60, 100, 25), 'white': (0, 0, 87), 'silver': (0, 0, 75), 'gray': (0, 0, 50), 'lightblue': (240, 34, 63), 'lightgreen': (120, 34, 63), 'lightcyan': (180, 34, 63), 'lightred': (0, 34, 63), 'yellow': (60, 100, 44), 'orange': (40, 100, 38), 'lightgray': (0, 0, 65), 'brightwhite': (0, 0, 100), 'brightblue': (240, 100, 50), 'brightcyan': (180, 100, 75), 'brightgreen': (120, 100, 50), 'brightred': (0, 100, 50), 'brightmagenta': (300, 100, 50), 'brightyellow': (60, 100, 50), 'brightorange': (39, 100, 50), 'darkgray': (0, 0, 36), 'darkblue': (240, 100, 18), 'darkgreen': (120, 100, 18), 'darkred': (0, 100, 18), 'darkmagenta': (300, 100, 18), 'darkbrown': (60, 100, 18), 'gold': (51, 100, 50), 'orangered': (16, 100, 50), 'flesh': (10, 35, 73)}


def getcolorname2RGBdict() -> dict:
    return {'black': 0, 'blue': 192, 'green': 49152, 'cyan': 4243648, 'red': 12582912, 'magenta': 12583104, 'brown': 8421376, 'white': 14606046, 'silver': 12632256, 'gray': 8421504, 'lightblue': 8421568, 'lightgreen': 8437888, 'lightcyan': 8437952, 'lightred': 12615808, 'yellow': 14605824, 'orange': 12615680, 'lightgray': 10855845, 'brightwhite': 16777215, 'brightblue': 255, 'brightcyan': 8454143, 'brightgreen': 65280, 'brightred': 16711680, 'brightmagenta': 16711935, 'brightyellow': 16776960, 'brightorange': 16753664, 'darkgray': 6052956, 'darkblue': 92, 'darkgreen': 23552, 'darkred': 6029312, 'darkmagenta': 6029404, 'darkbrown': 6052864, 'gold': 16766720, 'orangered': 16729344, 'flesh': 13805985}


def getRGBfactors() -> dict:
    return {'black': [0.0, 0.0, 0.0], 'blue': [0.0, 0.0, 0.7529411764705882], 'green': [0.0, 0.7529411764705882, 0.0], 'cyan': [0.25098039215686274, 0.7529411764705882, 0.7529411764705882], 'red': [0.7529411764705882, 0.0, 0.0], 'magenta': [0.7529411764705882, 0.0, 0.7529411764705882], 'brown': [0.5019607843137255, 0.5019607843137255, 0.0], 'white': [0.8705882352941177, 0.8705882352941177, 0.8705882352941177], 'silver': [0.7529411764705882, 0.7529411764705882, 0.7529411764705882], 'gray': [0.5019607843137255, 0.5019607843137255, 0.5019607843137255], 'lightblue': [0.5019607843137255, 0.5019607843137255, 0.7529411764705882], 'lightgreen': [0.5019607843137255, 0.7529411764705882, 0.5019607843137255], 'lightcyan': [0.5019607843137255, 0.7529411764705882, 0.7529411764705882], 'lightred': [0.7529411764705882, 0.5019607843137255, 0.5019607843137255], 'yellow': [0.8705882352941177, 0.8705882352941177, 0.0], 'orange': [0.7529411764705882, 0.5019607843137255, 0.0], 'lightgray': [0.6470588235294118, 0.6470588235294118, 0.6470588235294118], 'brightwhite': [1.0, 1.0, 1.0], 'brightblue': [0.0, 0.0, 1.0], 'brightcyan': [0.5019607843137255, 1.0, 1.0], 'brightgreen': [0.0, 1.0, 0.0], 'brightred': [1.0, 0.0, 0.0], 'brightmagenta': [1.0, 0.0, 1.0], 'brightyellow': [1.0, 1.0, 0.0], 'brightorange': [1.0, 0.6431372549019608, 0.0], 'darkgray': [0.3607843137254902, 0.3607843137254902, 0.3607843137254902], 'darkblue': [0.0, 0.0, 0.3607843137254902], 'darkgreen': [0.0, 0.3607843137254902, 0.0], 'darkred': [0.3607843137254902, 0.0, 0.0], 'darkmagenta': [0.3607843137254902, 0.0, 0.3607843137254902], 'darkbrown': [0.3607843137254902, 0.3607843137254902, 0.0], 'gold': [1.0, 0.8431372549019608, 0.0], 'orangered': [1.0, 0.27058823529411763, 0.0], 'flesh': [0.8235294117647058, 0.6627450980392157, 0.6313725490196078]}


