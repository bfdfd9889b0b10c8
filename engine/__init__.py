import warnings
warnings.simplefilter("ignore")
