import cProfile,pstats,sys,os
sys.path.insert(0,'/verif'); os.chdir('/verif')
import check
pr=cProfile.Profile(); pr.enable(); check.main([sys.argv[1]]); pr.disable()
pstats.Stats(pr).sort_stats('tottime').print_stats(18)
